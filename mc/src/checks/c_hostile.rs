//! C08: no panic, hang, overflow or unbounded memory.
use super::*;
use crate::corpus::{digit, fill, omnibus, small, Space};
use crate::wire::*;
use std::sync::Arc;
use std::time::Instant;
use yule_log::encode::Encode;
use yule_log::model::msg::UlogMessage;

fn views(m: &UlogMessage) -> usize {
    #[allow(deprecated)]
    let n = match m {
        UlogMessage::LoggedData(d) => {
            let n = d.data.flatten().len();
            d.data.to_string().len() + n + d.data.fields.iter().map(|f| f.value.to_string().len()).sum::<usize>()
        }
        UlogMessage::FormatDefinition(f) => f.to_string().len(),
        UlogMessage::Info(i) => i.to_string().len(),
        UlogMessage::MultiInfo(i) => i.to_string().len(),
        UlogMessage::Parameter(i) => i.to_string().len(),
        UlogMessage::DefaultParameter(i) => i.to_string().len(),
        UlogMessage::LoggedString(i) | UlogMessage::TaggedLoggedString(i) => i.to_string().len(),
        UlogMessage::AddSubscription(i) => i.to_string().len(),
        UlogMessage::DropoutMark(i) => i.to_string().len(),
        _ => 0,
    };
    use std::fmt::Write;
    let mut c = Count(0);
    let _ = write!(c, "{m:?}");
    n + c.0
}
struct Count(usize);
impl std::fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
/// Runs a log under one option set with all views; checks item count, peak memory and time.
fn total(b: &[u8], cfg: &Cfg, ctx: &mut Ctx) -> Result<(), Fail> {
    let cap = cap_for(b.len());
    let mut n = 0usize;
    let mut sig = 0u64;
    crate::alloc::reset_peak();
    let base = crate::alloc::live();
    let t0 = Instant::now();
    let mut parse_peak = 0i64;
    let r = guard(|| {
        let mut p = parser(b, cfg);
        loop {
            crate::alloc::reset_peak();
            let l = crate::alloc::live();
            let x = p.next();
            parse_peak = parse_peak.max(crate::alloc::peak() - l);
            let Some(x) = x else { break };
            n += 1;
            if n > cap {
                return false;
            }
            if let Ok(m) = &x {
                sig = sig.wrapping_mul(31).wrapping_add(views(m) as u64);
                let mut out = vec![];
                let _ = m.encode(&mut out);
                sig = sig.wrapping_mul(31).wrapping_add(out.len() as u64);
            }
            match &x {
                Err(e) => sig = sig.wrapping_mul(31).wrapping_add(format!("{e} {e:?}").len() as u64),
                Ok(_) => {}
            }
        }
        let r = p.next().is_none();
        r
    });
    let _ = base;
    ctx.execs += 1;
    ctx.transitions += n as u64;
    ctx.state(&sig);
    ctx.outcome(&(n, sig));
    let bad = |w: String| Err(Fail::new(format!("{w} (options {cfg:?})"), hex(b)));
    match r {
        Err(p) => return bad(format!("panic: {p}")),
        Ok(false) => return bad(format!("more than {cap} items, or an item after the end, from {} bytes", b.len())),
        Ok(true) => {}
    }
    // one message is at most 64 KiB: memory for one item is bounded by a constant and a multiple of the log's size
    let lim = (8 << 20) + 4096 * b.len() as i64;
    if parse_peak > lim {
        return bad(format!("{parse_peak} bytes of heap for one message of a {} byte log", b.len()));
    }
    let s = t0.elapsed().as_secs_f64();
    if s > 10.0 {
        return bad(format!("{s:.1} s for {} bytes", b.len()));
    }
    Ok(())
}
fn c08(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    total(b, &Cfg::all(), ctx)?;
    total(b, &Cfg::default().allow(&["m", "w"]), ctx)
}
fn mutations(t: Tier) -> Vec<Space> {
    let om = Arc::new(omnibus());
    let n = om.len() as u64;
    let o2 = om.clone();
    let mut v = vec![Space::new("byte", "every single-byte change of a log with every message kind", n * 256, move |i| {
        let mut b = o2.to_vec();
        b[(i / 256) as usize] = i as u8;
        b
    })];
    let o2 = om.clone();
    v.push(Space::new("delete_insert", "every single-byte deletion, and insertion of 9 byte values at every place", n * 10, move |i| {
        let mut b = o2.to_vec();
        let p = (i / 10) as usize;
        let k = (i % 10) as usize;
        if k == 9 {
            b.remove(p);
        } else {
            b.insert(p, [0u8, 1, 0x30, 0x3a, 0x3b, 0x5b, 0x7f, 0x80, 0xff][k]);
        }
        b
    }));
    let vals = [0u8, 1, 2, b'0', b'9', b'A', b'D', b'F', b'R', b':', b';', b'[', b']', b' ', 0x7f, 0x80, 0xff];
    let nv = vals.len() as u64;
    // pairs of changes on a short log
    let s = cat(&[header(), fmt("m:uint64_t timestamp;n[2] x;"), fmt("n:uint8_t a;"), sub(0, 1, "m"), data(1, &fill(10)), info("char[1] k", b"x")]);
    let m = s.len() as u64 - 16;
    let step = t.pick(3, 1);
    v.push(Space::new("byte_pairs", format!("every pair of positions (second: every {step}) of a short log x 17 x 17 byte values"), m * (m / step) * nv * nv, move |mut i| {
        let a = digit(&mut i, m) as usize + 16;
        let c = (digit(&mut i, m / step) * step) as usize + 16;
        let mut b = s.clone();
        b[a] = vals[digit(&mut i, nv) as usize];
        b[c] = vals[i as usize];
        b
    }));
    v
}
fn types_lengths() -> Space {
    // every type byte x payload length 0..=48 x fill, before and after subscription
    Space::new("types", "every type byte x payload length 0..=48 x 4 fills, in both sections", 256 * 49 * 4 * 2, |mut i| {
        let ty = digit(&mut i, 256) as u8;
        let n = digit(&mut i, 49) as usize;
        let f = digit(&mut i, 4);
        let p: Vec<u8> = match f {
            0 => vec![0; n],
            1 => vec![0xff; n],
            2 => fill(n),
            _ => b"\x01\x00m:uint8_t[3] a;float[2] b;\x30\x31".iter().cycle().take(n).copied().collect(),
        };
        let m = msg(ty, &p);
        let (a, s, d) = (fmt("m:uint64_t timestamp;char[4] c;"), sub(0, 1, "m"), data(1, &fill(12)));
        if i == 0 {
            cat(&[header(), m, a, s, d])
        } else {
            cat(&[header(), a, s, m, d])
        }
    })
}
/// Hostile array sizes in every place a size can stand.
fn array_sizes() -> Space {
    let sizes: Vec<String> = [
        "0", "1", "2", "255", "256", "65535", "65536", "1000000", "16777216", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "1152921504606846975",
        "1152921504606846976", "2305843009213693952", "4611686018427387904", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616",
        "18446744073709551617", "99999999999999999999999999", "00000000000000000000000000000001", "340282366920938463463374607431768211456",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    let tys = ["uint8_t", "uint16_t", "uint32_t", "uint64_t", "double", "bool", "char", "n", "e", "m", "nosuch"];
    let n = sizes.len() as u64 * tys.len() as u64 * 10;
    Space::new("array_sizes", format!("array sizes {sizes:?} x types {tys:?} x 10 places (field first/middle/last, padding, nested, info, multi info, parameter, with short and long payloads)"), n, move |mut i| {
        let s = sizes[digit(&mut i, sizes.len() as u64) as usize].clone();
        let t = tys[digit(&mut i, tys.len() as u64) as usize];
        let pre = cat(&[header(), fmt("n:uint8_t a;"), fmt("e:")]);
        let f = |d: &str, len: usize| cat(&[pre.clone(), fmt(&format!("m:{d}")), sub(0, 1, "m"), data(1, &fill(len)), data(1, &[])]);
        match i {
            0 => f(&format!("{t}[{s}] x;uint64_t timestamp;"), 16),
            1 => f(&format!("uint64_t timestamp;{t}[{s}] x;"), 8),
            2 => f(&format!("uint64_t timestamp;{t}[{s}] x;uint8_t y;"), 60000),
            3 => f(&format!("uint64_t timestamp;{t}[{s}] _padding0;"), 12),
            4 => f(&format!("{t}[{s}] _padding0;uint64_t timestamp;"), 12),
            5 => cat(&[pre, fmt(&format!("q:{t}[{s}] x;uint8_t y;")), fmt("m:uint64_t timestamp;q[3] z;"), sub(0, 1, "m"), data(1, &fill(300))]),
            6 => cat(&[pre, info(&format!("{t}[{s}] k"), &fill(20)), fmt("m:uint64_t timestamp;")]),
            7 => cat(&[pre, multi_info(0, &format!("{t}[{s}] k"), &fill(20)), fmt("m:uint64_t timestamp;"), sub(0, 1, "m"), multi_info(1, &format!("{t}[{s}] k"), &fill(0))]),
            8 => cat(&[pre, param(&format!("{t}[{s}] k"), &fill(4)), def_param(1, &format!("{t}[{s}] k"), &fill(4))]),
            _ => f(&format!("uint64_t timestamp;{t}[{s}] _padding0;{t}[{s}] x;"), 4000),
        }
    })
}
/// Self-referential, mutually recursive and exponential definitions.
fn recursion(t: Tier) -> Vec<Space> {
    // every directed graph over k formats: each format has a list of up to two children (as scalar or array)
    let k = t.pick(2u64, 3);
    let mut opts: Vec<String> = vec![String::new()];
    for c in 0..k {
        for a in ["", "[1]", "[3]", "[0]"] {
            opts.push(format!("r{c}{a} x;"));
        }
    }
    let firsts = opts.clone();
    for a in &firsts[1..] {
        for b in &firsts[1..] {
            if t == Tier::Quick || a.len() <= 6 && b.len() <= 6 {
                opts.push(format!("{a}{}", b.replace(" x;", " y;")));
            }
        }
    }
    let no = opts.len() as u64;
    let graphs = Space::new("graphs", format!("every reference graph over {k} formats with up to two children each ({no} bodies per format), with and without own bytes, three payload lengths"), no.pow(k as u32) * 2 * 3, move |mut i| {
        let own = digit(&mut i, 2) == 1;
        let len = [8usize, 40, 3000][digit(&mut i, 3) as usize];
        let mut v = vec![header()];
        for c in 0..k {
            let b = &opts[digit(&mut i, no) as usize];
            v.push(fmt(&format!("r{c}:{}{b}", if own { "uint8_t p;" } else { "" })));
        }
        v.push(fmt("m:uint64_t timestamp;r0 z;"));
        v.push(sub(0, 1, "m"));
        v.push(data(1, &fill(len)));
        v.push(info("r0 k", &fill(len)));
        v.push(info("r0[2] k", &[]));
        cat(&v)
    });
    // chains: depth x width x array notation x bytes in the leaf
    let depths = [1usize, 2, 5, 10, 16, 20, 24, 30, 40, 63, 64, 65, 100, 200, 500, 1000];
    let chains = Space::new("chains", format!("nesting chains of depth {depths:?} x 1..=4 children per level (fields or array) x leaf of 0, 1 or 3 bytes or padding x 3 payload lengths"), 16 * 8 * 4 * 3, move |mut i| {
        let d = depths[digit(&mut i, 16) as usize];
        let w = digit(&mut i, 4) as usize + 1;
        let arr = digit(&mut i, 2) == 1;
        let leaf = ["", "uint8_t a;", "uint8_t[3] a;", "uint8_t[2] _padding0;"][digit(&mut i, 4) as usize];
        let len = [8usize, 100, 60000][i as usize];
        let mut v = vec![header(), fmt(&format!("l0:{leaf}"))];
        for x in 1..=d {
            let body = if arr { format!("l{}[{w}] c;", x - 1) } else { (0..w).map(|j| format!("l{} c{j};", x - 1)).collect() };
            v.push(fmt(&format!("l{x}:{body}")));
        }
        v.push(fmt(&format!("m:uint64_t timestamp;l{d} x;")));
        v.push(sub(0, 1, "m"));
        v.push(data(1, &fill(len)));
        cat(&v)
    });
    // many fields that occupy no bytes, multiplied by arrays
    let bombs = Space::new("bombs", "formats with n zero-size or padding fields, instantiated in arrays of k elements", 4 * 5 * 4, move |mut i| {
        let kind = digit(&mut i, 4) as usize;
        let k = [1usize, 10, 1000, 20000, 60000][digit(&mut i, 5) as usize];
        let n = [1usize, 50, 500, 3000][i as usize];
        let f = ["char[0] a;", "e a;", "e[100] a;", "char[0] _padding0;"][kind];
        cat(&[header(), fmt("e:"), fmt(&format!("z:uint8_t p;{}", f.repeat(n))), fmt(&format!("m:uint64_t timestamp;z[{k}] x;")), sub(0, 1, "m"), data(1, &fill(8 + k))])
    });
    vec![graphs, chains, bombs]
}
/// Format texts over a small alphabet, used: definition, subscription, data and info with it.
fn texts(t: Tier) -> Space {
    let a: Vec<&str> = vec!["a", ":", ";", "[", "]", "9", " ", "uint8_t", "timestamp", "_padding0", "\u{e9}", "uint64_t", "-", "0"];
    let k = a.len() as u64;
    let d = t.pick(4u32, 5);
    Space::new("texts", format!("every text of {d} tokens over {a:?} as format body, format, info key, parameter key and subscription name"), k.pow(d), move |mut i| {
        let s: String = (0..d).map(|_| a[digit(&mut i, k) as usize]).collect();
        cat(&[
            header(),
            fmt(&format!("a:{s}")),
            fmt(&s),
            info(&s, &fill(20)),
            multi_info(0, &s, &fill(9)),
            param(&s, &fill(4)),
            sub(0, 1, "a"),
            data(1, &fill(30)),
            data(1, &fill(9)),
            sub(0, 2, &s),
        ])
    })
}
/// The 16 header bytes.
/// Names and keys of characters that take several bytes, in every place of a name, at every shift.
fn wide_names() -> Space {
    let mut v = vec![];
    for c in ['\u{e9}', '\u{20ac}', '\u{1f600}'] {
        for shift in 0..c.len_utf8() {
            for len in (1..40).chain([63, 64, 65, 66, 127, 130, 200, 240, 300, 1000, 5000]) {
                let s = crate::corpus::wide(c, shift, len);
                let mut l = vec![header(), fmt("a:uint64_t timestamp;uint8_t v;")];
                for t in [s.clone(), format!("{s}:uint8_t v;"), format!("m:{s} v;"), format!("m:uint8_t {s};"), format!("m:uint8_t[{s}] v;"), format!("m:uint8_t v;{s}"), format!("m:uint64_t timestamp;{s}[2] v;")] {
                    l.push(fmt(&t));
                }
                let mut keys = vec![];
                for k in [s.clone(), format!("{s} v"), format!("char[3] {s}"), format!("int32_t {s}"), format!("char[3] v{s}"), format!("char[{s}] v")] {
                    if k.len() <= 255 {
                        keys.extend([info(&k, b"abcd"), multi_info(1, &k, b"abcd"), param(&k, b"abcd"), def_param(1, &k, b"abcd")]);
                    }
                }
                l.extend(keys.clone());
                l.extend([sub(0, 3, &s), sub(0, 4, &format!("a{s}")), sub(0, 1, "a"), data(1, &fill(9)), sub(1, 5, &s), data(5, &fill(9)), sub(1, 6, "m"), data(6, &fill(30))]);
                l.extend(keys);
                v.push(cat(&l));
            }
        }
    }
    Space::list("wide-names", "names, types, sizes, keys and subscribed names of characters that take 2, 3 and 4 bytes at every shift, lengths 1..5000", v)
}
fn heads() -> Space {
    Space::new("heads", "every single-byte change of the header x short continuations; all-equal files of every byte value", 16 * 256 * 3 + 256 * 40, |i| {
        if i < 16 * 256 * 3 {
            let k = i / (16 * 256);
            let mut h = header();
            h[((i / 256) % 16) as usize] = i as u8;
            let c = match k {
                0 => vec![],
                1 => vec![0; 9],
                _ => cat(&[fmt("m:uint64_t timestamp;"), sub(0, 1, "m"), data(1, &fill(8))]),
            };
            cat(&[h, c])
        } else {
            let i = i - 16 * 256 * 3;
            vec![(i % 256) as u8; (i / 256) as usize]
        }
    })
}
fn digraphs(t: Tier) -> Space {
    // all pairs of bytes as the body of each variable-content message
    let step = t.pick(3u64, 1);
    Space::new("digraphs", format!("all byte pairs (second byte: every {step}) as the end of a log text, key, format, subscription, flag and unknown message"), 256 * (256 / step) * 2, move |mut i| {
        let a = digit(&mut i, 256) as u8;
        let b = (digit(&mut i, 256 / step) * step) as u8;
        let p = [a, b];
        let k = [&b"float k"[..], &p].concat();
        let body = cat(&[
            log(b'6', 1, &p),
            tlog(b'6', 1, 1, &p),
            msg(b'F', &[&b"q:uint8_t a"[..], &p].concat()),
            msg(b'F', &[&p[..], b":uint8_t a;"].concat()),
            msg(b'I', &[&[k.len() as u8][..], &k, &[0; 4]].concat()),
            msg(b'P', &[&[9][..], &p, b"float k", &[0; 4]].concat()),
            msg(b'M', &[a, b, 0x69]),
            msg(b'A', &[&[0, 5, 0][..], b"m", &p].concat()),
            msg(b'D', &p),
            msg(b'R', &p),
            msg(b'O', &p),
            msg(a, &p),
        ]);
        let d = cat(&[fmt("m:uint64_t timestamp;"), sub(0, 1, "m")]);
        if i == 0 {
            cat(&[header(), body, d])
        } else {
            cat(&[header(), d, body])
        }
    })
}
fn logged_logs() -> Space {
    // with a logger at trace level every log statement is formatted too
    Space::list("log_level", "all logs of the omnibus and small sets with a trace-level logger installed", std::iter::once(omnibus()).chain(small()).collect())
}
struct Null;
impl log::Log for Null {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        // format the arguments, as any real logger does
        std::hint::black_box(r.args().to_string());
    }
    fn flush(&self) {}
}
pub fn install_logger(level: log::LevelFilter) {
    static N: Null = Null;
    let _ = log::set_logger(&N);
    log::set_max_level(level);
}
/// Hostile logs for the checks that need any contents whatever: all, or evenly spread ones.
pub fn hostile(t: Tier) -> Vec<Space> {
    let cap = t.pick(12_000, 300_000);
    mutations(t).into_iter().take(2).chain([types_lengths(), array_sizes(), texts(t), heads()]).map(|s| super::c_fault::thin(s.clone(), s.count.div_ceil(cap))).collect()
}
fn fams(t: Tier) -> Vec<Family> {
    // every log statement of the parser runs (and formats its arguments) during the whole check
    install_logger(log::LevelFilter::Trace);
    let mut v = mutations(t);
    v.push(types_lengths());
    v.push(array_sizes());
    v.extend(recursion(t));
    v.push(texts(t));
    v.push(wide_names());
    v.push(heads());
    v.push(digraphs(t));
    v.push(logged_logs());
    v.extend(crate::corpus::all(t).into_iter().filter(|s| matches!(s.name, "wide-texts" | "text" | "sizes")));
    v.push(super::c_hist::words_space(t.pick(3, 4)));
    over(v, c08)
}
pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C08",
        level: "model_checking",
        rule: "states = distinct item/size signatures of complete runs; every input is executed on the real code with all options on and with defaults plus an allow-list, every item is printed, debug-printed, encoded and flattened, with trace logging on; heap peak per message and time are measured; aborts and hangs are attributed by the supervisor",
        assumptions: vec![
            "the input space is the listed families, not all byte sequences".into(),
            "memory bound: 8 MiB plus 4096 bytes per log byte for one message; time bound: 10 s per log of at most 66 KiB".into(),
        ],
        families: fams,
    }]
}
