//! Exhaustive, indexed families of well-formed (and a few deliberately odd) logs.
use crate::engine::{hex, Tier};
use crate::obs::{Prim, PRIMS};
use crate::wire::*;
use std::sync::Arc;

#[derive(Clone)]
pub struct Space {
    pub name: &'static str,
    pub what: String,
    pub count: u64,
    pub gen: Arc<dyn Fn(u64) -> Vec<u8> + Send + Sync>,
}
impl Space {
    pub fn new(name: &'static str, what: impl Into<String>, count: u64, gen: impl Fn(u64) -> Vec<u8> + Send + Sync + 'static) -> Space {
        Space { name, what: what.into(), count, gen: Arc::new(gen) }
    }
    pub fn list(name: &'static str, what: impl Into<String>, logs: Vec<Vec<u8>>) -> Space {
        let n = logs.len() as u64;
        Space::new(name, what, n, move |i| logs[i as usize].clone())
    }
    pub fn show(&self) -> impl Fn(u64) -> String + Sync + Send + 'static {
        let g = self.gen.clone();
        move |i| hex(&g(i))
    }
}
/// Mixed-radix digit extraction.
pub fn digit(i: &mut u64, base: u64) -> u64 {
    let d = *i % base;
    *i /= base;
    d
}
/// Deterministic distinct filler bytes (never two equal neighbours, all 256 values).
pub fn fill(n: usize) -> Vec<u8> {
    fill_from(n, 0x11)
}
pub fn fill_from(n: usize, s: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(s)).collect()
}
pub const TS: u64 = 0x1122_3344_5566_7788;

/// Every type x byte position x byte value x surrounding fill; as a scalar field, an array field and an info value.
fn bits() -> Space {
    // (prim, pos) pairs
    let mut pp = vec![];
    for p in PRIMS {
        for pos in 0..p.size() {
            pp.push((p, pos));
        }
    }
    let n = pp.len() as u64 * 256 * 3;
    Space::new("bits", "12 types x byte position x 256 byte values x 3 fills, as scalar, array and info value", n, move |mut i| {
        let (p, pos) = pp[digit(&mut i, pp.len() as u64) as usize];
        let b = digit(&mut i, 256) as u8;
        let f = i;
        let mut v: Vec<u8> = match f {
            0 => vec![0; p.size()],
            1 => vec![0xff; p.size()],
            _ => (1..=p.size() as u8).collect(),
        };
        if p == Prim::Bool {
            v[0] = b & 1;
        } else {
            v[pos] = b;
        }
        let other: Vec<u8> = if p == Prim::Bool { vec![1] } else { (0..p.size() as u8).map(|x| 0xe0 + x).collect() };
        let arr = [other.clone(), v.clone(), other].concat();
        cat(&[
            header(),
            fmt(&format!("m:uint64_t timestamp;{0} s;{0}[3] a;", p.name())),
            info(&format!("{} k", p.name()), &v),
            multi_info(1, &format!("{}[3] k", p.name()), &arr),
            sub(0, 1, "m"),
            data(1, &[TS.to_le_bytes().to_vec(), v, arr].concat()),
        ])
    })
}

/// Array lengths for every type, data field and info value.
fn arrays(t: Tier) -> Space {
    let lens: Vec<usize> = t.pick(vec![0, 1, 2, 3, 7, 8, 255, 256, 257, 1000], (0..=40).chain([127, 128, 255, 256, 257, 511, 512, 1000, 4095, 4096, 8000]).collect());
    let n = lens.len() as u64 * 13;
    Space::new("arrays", format!("array length {lens:?} x 12 primitive types and nested formats"), n, move |mut i| {
        let l = lens[digit(&mut i, lens.len() as u64) as usize];
        let k = i as usize;
        if k == 12 {
            return cat(&[
                header(),
                fmt("n:uint8_t a;uint16_t b;"),
                fmt(&format!("m:uint64_t timestamp;n[{l}] a;uint8_t z;")),
                sub(0, 1, "m"),
                data(1, &[TS.to_le_bytes().to_vec(), fill(3 * l + 1)].concat()),
            ]);
        }
        let p = PRIMS[k];
        let mut v = fill(l * p.size());
        if p == Prim::Bool {
            v.iter_mut().for_each(|b| *b &= 1);
        }
        cat(&[
            header(),
            fmt(&format!("m:uint64_t timestamp;{}[{l}] a;uint8_t z;", p.name())),
            info(&format!("{}[{l}] k", p.name()), &v),
            sub(0, 1, "m"),
            data(1, &[TS.to_le_bytes().to_vec(), v, vec![0x5a]].concat()),
        ])
    })
}

pub const KINDS: [&str; 12] = [
    "uint8_t", "int16_t", "float", "double", "bool", "char[3]", "uint16_t[2]", "n1", "n1[2]", "n2", "uint8_t[3]P", "uint32_t[0]",
];
pub const N1: &str = "n1:uint16_t a;uint8_t[2] _padding0;int8_t b;";
pub const N2: &str = "n2:uint8_t[3] _padding0;n1 x;uint64_t timestamp;n1[2] y;uint8_t _padding1;";
fn kind_size(k: usize) -> usize {
    [1, 2, 4, 8, 1, 3, 4, 5, 10, 3 + 5 + 8 + 10 + 1, 3, 0][k]
}
/// body of a format made of the given kinds with the timestamp at position `tp`
pub fn shape(ks: &[usize], tp: usize) -> (String, Vec<usize>, Vec<bool>) {
    let mut s = String::new();
    let mut sizes = vec![];
    let mut pad = vec![];
    for j in 0..=ks.len() {
        if j == tp {
            s += "uint64_t timestamp;";
            sizes.push(8);
            pad.push(false);
        }
        if let Some(&k) = ks.get(j) {
            let t = KINDS[k];
            if let Some(t) = t.strip_suffix('P') {
                s += &format!("{t} _padding{j};");
                pad.push(true);
            } else {
                s += &format!("{t} f{j};");
                pad.push(false);
            }
            sizes.push(kind_size(k));
        }
    }
    (s, sizes, pad)
}
fn shapes(t: Tier) -> Space {
    let maxn = t.pick(3, 4);
    let k = KINDS.len() as u64;
    // n fields x timestamp position x trailing padding kept/omitted
    let mut start = vec![];
    let mut tot = 0;
    for n in 0..=maxn {
        start.push(tot);
        tot += k.pow(n) * (n as u64 + 1) * 2;
    }
    Space::new(
        "shapes",
        format!("every format of at most {maxn} fields over {k} field kinds {KINDS:?}, timestamp at every position, trailing padding sent or omitted"),
        tot,
        move |i| {
            let n = (0..=maxn).rev().find(|&n| start[n as usize] <= i).unwrap();
            let mut i = i - start[n as usize];
            let omit = digit(&mut i, 2) == 1;
            let tp = digit(&mut i, n as u64 + 1) as usize;
            let ks: Vec<usize> = (0..n).map(|_| digit(&mut i, k) as usize).collect();
            let (s, sizes, pad) = shape(&ks, tp);
            let mut len: usize = sizes.iter().sum();
            if omit {
                for (sz, p) in sizes.iter().zip(&pad).rev() {
                    if !p {
                        break;
                    }
                    len -= sz;
                }
            }
            let mut body = fill(len);
            // bools must be 0/1 to be canonical
            let mut o = 0;
            let mut it = sizes.iter();
            for j in 0..=ks.len() {
                if j == tp {
                    o += it.next().unwrap();
                }
                if let Some(&kk) = ks.get(j) {
                    if KINDS[kk] == "bool" && o < body.len() {
                        body[o] &= 1;
                    }
                    o += it.next().unwrap();
                }
            }
            cat(&[
                header(),
                fmt(N1),
                fmt(N2),
                fmt(&format!("m:{s}")),
                sub(0, 7, "m"),
                data(7, &body),
                data(7, &body.iter().map(|b| if *b < 2 { *b } else { !*b | 2 }).collect::<Vec<_>>()),
            ])
        },
    )
}

/// Every non-data kind with boundary contents, before and after the first subscription.
pub fn kind_msgs(t: Tier) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let u64s = [0u64, 1, 0xff, 0x100, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX, TS];
    for l in b'0'..=b'7' {
        for (j, ts) in u64s.iter().enumerate() {
            v.push(log(l, *ts, b"hello"));
            v.push(tlog(l, [0u16, 1, 255, 256, 0x1234, 0xff00, 65535, 7][j], *ts, "tagged \u{e9}".as_bytes()));
        }
    }
    v.push(log(b'6', 1, b""));
    v.push(tlog(b'6', 2, 1, b""));
    for tag in 0..=255u16 {
        v.push(tlog(b'3', tag << 8 | (255 - tag), 5, b"x"));
    }
    for d in [0u16, 1, 255, 256, 32767, 32768, 65535].into_iter().chain(t.pick(0..64, 0..4096)) {
        v.push(dropout(d.wrapping_mul(if d < 4096 && d > 8 { 17 } else { 1 })));
    }
    for x in [0i32, 1, -1, 255, 256, i32::MAX, i32::MIN, 0x0102_0304] {
        v.push(param("int32_t P_A", &x.to_le_bytes()));
        for ty in 0..=255u8 {
            if x == 1 || ty < 4 {
                v.push(def_param(ty, "int32_t P_A", &x.to_le_bytes()));
            }
        }
    }
    for b in [0u32, 0x8000_0000, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7fa0_0001, 1, 0x3f80_0000, 0xffff_ffff] {
        v.push(param("float P_B", &b.to_le_bytes()));
        v.push(def_param(2, "float P_B", &b.to_le_bytes()));
        v.push(info("float f", &b.to_le_bytes()));
    }
    for k in ["uint32_t ver_sw_release", "uint32_t ver_x", "uint32_t _", "uint32_t a_release"] {
        v.push(info(k, &0xdead_beefu32.to_le_bytes()));
        v.push(multi_info(0, k, &0xdead_beefu32.to_le_bytes()));
    }
    for c in 0..=1u8 {
        v.push(multi_info(c, "char[4] perf", b"ab\0\xff"));
    }
    for s in ["", "a", "PX4", "caf\u{e9}", "\u{1F680}x"] {
        v.push(info(&format!("char[{}] sys_name", s.len()), s.as_bytes()));
    }
    // message types without special handling, of several lengths
    for ty in 0..=255u8 {
        if b"FDIMPQAROLCB".contains(&ty) {
            continue;
        }
        for n in [0usize, 1, 2, 3, 40, 257] {
            v.push(msg(ty, &fill(n)));
        }
    }
    v.push(sync());
    // unsubscribing of ids nobody uses
    for id in [0u16, 2, 255, 256, 0x1234, 65535] {
        v.push(unsub(id));
    }
    // keys of all lengths up to the limit
    for n in t.pick(vec![1usize, 2, 9, 100, 200, 240, 247], (1..=247).collect()) {
        let k = format!("int32_t {}", "k".repeat(n));
        v.push(info(&k, &7i32.to_le_bytes()));
        v.push(multi_info(0, &k, &7i32.to_le_bytes()));
        v.push(param(&k, &7i32.to_le_bytes()));
        v.push(def_param(1, &k, &7i32.to_le_bytes()));
    }
    v
}
fn kinds(t: Tier) -> Space {
    let v = kind_msgs(t);
    let n = v.len() as u64 * 2;
    Space::new("kinds", format!("{} messages of every non-data kind with boundary contents, in the definitions and in the data section", v.len()), n, move |i| {
        let m = v[(i / 2) as usize].clone();
        let (f, s, d) = (fmt("m:uint64_t timestamp;uint8_t a;"), sub(0, 1, "m"), data(1, &fill(9)));
        if i % 2 == 0 {
            cat(&[header(), m.clone(), f, m, s, d])
        } else {
            cat(&[header(), f, s, m.clone(), d.clone(), m, d])
        }
    })
}
/// Flag bits: every single flag byte value and offset patterns (offsets beyond the file).
fn flagbits() -> Space {
    let offs = [0u64, 1 << 20, 1 << 32, 1 << 33, u64::MAX, i64::MAX as u64, 0x8000_0000, 65536 * 16];
    let n = 256 * 8 + 2 * (offs.len() as u64).pow(3);
    Space::new("flagbits", "every value of every compatible-flag byte; appended flag x all triples of 8 offsets past the file", n, move |mut i| {
        let (mut c, mut x, mut o) = ([0u8; 8], [0u8; 8], [0u64; 3]);
        if i < 256 * 8 {
            c[(i / 256) as usize] = i as u8;
        } else {
            i -= 256 * 8;
            x[0] = digit(&mut i, 2) as u8;
            for s in &mut o {
                *s = offs[digit(&mut i, offs.len() as u64) as usize];
            }
        }
        cat(&[header(), flags(c, x, o), fmt("m:uint64_t timestamp;"), sub(0, 1, "m"), data(1, &fill(8))])
    })
}
/// Message lengths around every power of two up to the largest, for the kinds with free-length contents.
fn sizes(t: Tier) -> Space {
    let mut ls = vec![];
    for k in t.pick(vec![7u32, 8, 9, 12, 15, 16], (2..=16).collect()) {
        for d in [-2i64, -1, 0, 1] {
            let n = (1i64 << k) + d;
            if (12..=65535).contains(&n) {
                ls.push(n as usize);
            }
        }
    }
    ls.sort();
    ls.dedup();
    let n = ls.len() as u64 * 8;
    Space::new("sizes", format!("message content lengths {ls:?} x 8 kinds"), n, move |mut i| {
        let l = ls[digit(&mut i, ls.len() as u64) as usize];
        let pre = cat(&[header(), fmt("m:uint64_t timestamp;")]);
        let post = cat(&[sub(0, 1, "m"), data(1, &fill(8))]);
        let asc: Vec<u8> = (0..l).map(|i| b'a' + (i % 26) as u8).collect();
        let m = match i {
            0 => log(b'6', 1, &asc[..l - 9]),
            1 => tlog(b'6', 1, 1, &asc[..l - 11]),
            2 => msg(b'Z', &fill(l)),
            3 => {
                let d = l.to_string().len();
                let vl = l - (1 + 8 + d); // key "char[N] k"
                let k = format!("char[{vl}] k");
                let rest = l - 1 - k.len();
                let k = format!("char[{rest}] k");
                info(&k, &asc[..rest])
            }
            4 => {
                // format text of exactly l bytes: a name padded out
                let tail = ":uint8_t a;";
                if l <= tail.len() {
                    msg(b'Z', &[])
                } else {
                    fmt(&format!("{}{tail}", "n".repeat(l - tail.len())))
                }
            }
            5 | 6 => {
                // data message of exactly l content bytes
                let n = l.saturating_sub(10);
                let f = fmt(&format!("big:uint8_t[{n}] a;uint64_t timestamp;"));
                let mut p = fill(n);
                p.extend_from_slice(&TS.to_le_bytes());
                let s = cat(&[f, sub(0, 9, "big"), data(9, &p)]);
                if i == 5 {
                    return cat(&[header(), s]);
                }
                return cat(&[header(), fmt("m:uint64_t timestamp;"), s, sub(0, 1, "m"), data(1, &fill(8)), data(9, &p)]);
            }
            _ => {
                // subscription to a long message name
                let n = "q".repeat(l - 3);
                let f = if n.len() + 21 <= 65535 { fmt(&format!("{n}:uint64_t timestamp;")) } else { fmt("q:") };
                if n.len() + 21 <= 65535 {
                    return cat(&[header(), f, sub(3, 0x1234, &n), data(0x1234, &fill(8))]);
                }
                f
            }
        };
        cat(&[pre, m.clone(), post, m])
    })
}
/// Message ids and instances: boundary values in pairs that collide when truncated to 8 bits or byte-swapped.
fn ids() -> Space {
    let ids = [0u16, 1, 2, 255, 256, 257, 258, 512, 0x0100, 0x1234, 0x3412, 32767, 32768, 65534, 65535];
    let multis = [0u8, 1, 2, 127, 128, 254, 255];
    let n = (ids.len() * ids.len() * multis.len() * multis.len()) as u64;
    Space::new("ids", format!("pairs of subscriptions over ids {ids:?} and instances {multis:?}, same or different names, interleaved data"), n * 2, move |mut i| {
        let a = ids[digit(&mut i, 15) as usize];
        let b = ids[digit(&mut i, 15) as usize];
        let ma = multis[digit(&mut i, 7) as usize];
        let mb = multis[digit(&mut i, 7) as usize];
        let nb = if i == 0 { "m" } else { "w" };
        let (da, db) = (data(a, &fill(9)), data(b, &fill(9)));
        cat(&[
            header(),
            fmt("m:uint64_t timestamp;uint8_t a;"),
            fmt("w:uint8_t z;uint64_t timestamp;"),
            sub(ma, a, "m"),
            da.clone(),
            sub(mb, b, nb),
            db.clone(),
            da,
            db,
        ])
    })
}
/// Names that nearly coincide with special ones.
fn names() -> Space {
    let fields = [
        "timestamp", "timestamp_", "_timestamp", "Timestamp", "timestampx", "timestamp2", "_padding", "_padding0", "_paddin", "padding0",
        "_Padding0", "__padding0", "_padding_x", "a_padding0", "_", "x", "heartbeat", "Z9_", "_paddingtimestamp", "timestamp_padding",
    ];
    let types = ["uint8_t", "uint16_t[2]", "uint64_t", "int8_t", "char", "n", "n[2]", "t1", "t1[2]", "uint64_t[1]", "t2", "uint32_t", "double"];
    let sizes = [1usize, 4, 8, 1, 1, 2, 4, 8, 16, 8, 9, 4, 8];
    let (nf, nt) = (fields.len() as u64, types.len() as u64);
    let n = nf * nt * 2 * 2;
    Space::new("names", format!("field names {fields:?} x types {types:?}, before or after the timestamp, top level or nested"), n, move |mut i| {
        let f = fields[digit(&mut i, nf) as usize];
        let ti = digit(&mut i, nt) as usize;
        let first = digit(&mut i, 2) == 1;
        let nested = i == 1;
        let t = types[ti];
        let size = sizes[ti];
        let inner = format!("{t} {f};");
        let (defs, s, sz) = if nested {
            (fmt(&format!("o:uint8_t p;{inner}uint8_t q;")), "o w;".to_string(), size + 2)
        } else {
            (vec![], inner, size)
        };
        let (body, p) = if first {
            (format!("{s}uint64_t timestamp;uint8_t end;"), fill(sz + 9))
        } else {
            (format!("uint64_t timestamp;{s}uint8_t end;"), fill(sz + 9))
        };
        cat(&[header(), fmt("n:int8_t a;uint8_t b;"), fmt("t1:uint64_t timestamp;"), fmt("t2:t1 timestamp;uint8_t a;"), defs, fmt(&format!("m:{body}")), sub(0, 1, "m"), data(1, &p), data(1, &fill_from(sz + 9, 0x80))])
    })
}
/// Fields that share names, in a message and in a nested format.
fn twins() -> Space {
    const F: [(&str, usize); 9] = [("uint8_t a", 1), ("int16_t a", 2), ("uint8_t[2] b", 2), ("uint8_t[2] _padding0", 2), ("uint8_t _padding0", 1), ("uint16_t _padding1", 2), ("n c", 3), ("n[2] c", 6), ("uint64_t stamp", 8)];
    let k = F.len() as u64;
    Space::new("twins", format!("every sequence of three of the fields {F:?} behind or before the timestamp, or in a nested format"), k.pow(3) * 3, move |mut i| {
        let w: Vec<_> = (0..3).map(|_| F[digit(&mut i, k) as usize]).collect();
        let (body, n): (String, usize) = (w.iter().map(|f| format!("{};", f.0)).collect(), w.iter().map(|f| f.1).sum());
        let (defs, size) = match i {
            0 => (fmt(&format!("m:uint64_t timestamp;{body}uint8_t end;")), n + 9),
            1 => (fmt(&format!("m:{body}uint64_t timestamp;")), n + 8),
            _ => (cat(&[fmt(&format!("o:{body}")), fmt("m:o[2] x;uint64_t timestamp;o y;uint8_t end;")]), 3 * n + 9),
        };
        cat(&[header(), fmt("n:int8_t a;uint16_t b;"), defs, sub(0, 1, "m"), data(1, &fill(size)), data(1, &fill_from(size, 0x80))])
    })
}
/// Timestamps of notable values wherever a log has one.
fn stamps() -> Space {
    let v: Vec<u64> = (0..64).flat_map(|b| [1u64 << b, (1u64 << b) - 1, !(1u64 << b)]).chain([0, u64::MAX, u64::MAX - 1, 1_700_000_000_000_000]).collect();
    let n = v.len() as u64;
    Space::new("stamps", format!("{n} values as every timestamp of a log (header, log strings, data at top level first and last, nested), the others being small"), n * 5, move |mut i| {
        let x = v[digit(&mut i, n) as usize];
        let at = |k: u64| if i == k || i == 4 { x } else { 5 + k }.to_le_bytes().to_vec();
        let mut h = header();
        h[8..16].copy_from_slice(&at(0));
        let logged = |tag: Option<u16>, t: u64| {
            let pre = tag.map_or(vec![], |t| t.to_le_bytes().to_vec());
            msg(if tag.is_some() { b'C' } else { b'L' }, &[vec![b'6'], pre, t.to_le_bytes().to_vec(), b"text".to_vec()].concat())
        };
        let l = u64::from_le_bytes(at(1).try_into().unwrap());
        cat(&[
            h,
            fmt("t1:uint64_t timestamp;"),
            fmt("a:uint64_t timestamp;uint8_t x;t1 t;"),
            fmt("b:t1[2] t;uint8_t x;uint64_t timestamp;"),
            logged(None, l),
            sub(0, 1, "a"),
            sub(1, 2, "b"),
            data(1, &[at(2), vec![9], at(3)].concat()),
            data(2, &[at(3), at(3), vec![8], at(2)].concat()),
            logged(Some(3), l),
            data(1, &[at(2), vec![7], at(3)].concat()),
        ])
    })
}
/// Type and message names that nearly coincide with built-in ones.
fn typenames() -> Space {
    let base = [
        "uint8_tt", "uint8", "Uint8_t", "int8_t_", "floatx", "Float", "bool_", "charr", "doubl", "heartbeat", "heartbeat_status", "a", "_x",
        "A9", "vehicle_status", "esc_report", "float32", "int", "logger/status", "a-b", "a/b-c", "x_y/z",
    ];
    let v: Vec<Vec<u8>> = base
        .iter()
        .flat_map(|t| {
            (0..6).map(move |k| match k {
                0 => cat(&[header(), fmt(&format!("{t}:uint8_t a;")), fmt(&format!("m:uint64_t timestamp;{t} x;")), sub(0, 1, "m"), data(1, &fill(9))]),
                1 => cat(&[header(), fmt(&format!("{t}:uint8_t a;")), fmt(&format!("m:{t}[3] x;uint64_t timestamp;")), sub(0, 1, "m"), data(1, &fill(11))]),
                2 => cat(&[header(), fmt(&format!("{t}:uint64_t timestamp;")), sub(0, 1, t), data(1, &fill(8))]),
                3 => cat(&[header(), fmt(&format!("{t}:uint64_t timestamp;")), sub(4, 1, t), data(1, &fill(8)), sub(0, 2, t), data(2, &fill(8)), data(1, &fill(8))]),
                4 => cat(&[header(), fmt(&format!("{t}:uint16_t a;")), info(&format!("{t} k"), &fill(2)), multi_info(0, &format!("{t}[2] k"), &fill(4))]),
                _ => cat(&[header(), fmt(&format!("{t}:uint64_t timestamp;")), fmt(&format!("{t}2:uint64_t timestamp;uint8_t b;")), sub(0, 1, t), sub(0, 2, &format!("{t}2")), data(2, &fill(9)), data(1, &fill(8))]),
            })
        })
        .collect();
    Space::list("typenames", format!("message and type names {base:?} as nested type, array, subscription, instance and key type"), v)
}
const PADS: [(&str, usize); 7] = [("uint8_t", 1), ("uint8_t[3]", 3), ("uint16_t", 2), ("uint16_t[2]", 4), ("n", 3), ("n[2]", 6), ("char", 1)];
/// Padding of every type (also structures) at every nesting depth, first, inside and last, in a scalar or an array of
/// structures; as many bytes of data as the format has, or the trailing padding left out.
fn padding() -> Space {
    let n = (PADS.len() * 4 * 4 * 2 * 2) as u64;
    Space::new("padding", format!("padding fields of types {:?} at nesting depth 0..=3, first, middle, last or everywhere, in a structure or an array of two, trailing padding sent or omitted", PADS.map(|p| p.0)), n, move |mut i| {
        let (t, sz) = PADS[digit(&mut i, PADS.len() as u64) as usize];
        let depth = digit(&mut i, 4) as usize;
        let at = digit(&mut i, 4);
        let arr = digit(&mut i, 2) == 1;
        let omit = i == 1;
        let mut v = cat(&[header(), fmt("n:uint8_t a;uint16_t b;")]);
        let p = |k: u64, on: bool| if on { (format!("{t} _padding{k};"), sz) } else { (String::new(), 0) };
        let (mut inner, mut size, mut last) = (String::from("int16_t v;"), 2, 0);
        for d in (0..=depth).rev() {
            let here = d == 0 || d == depth || at == 3;
            let (a, an) = p(0, here && (at == 0 || at == 3));
            let (b, bn) = p(1, here && (at == 1 || at == 3));
            let (c, cn) = p(2, here && (at == 2 || at == 3));
            let body = format!("{a}{inner}{b}uint8_t w;{c}");
            let s = an + size + bn + 1 + cn;
            if d == 0 {
                v.extend(fmt(&format!("m:uint64_t timestamp;{body}")));
                size = 8 + s;
                last = cn;
            } else {
                v.extend(fmt(&format!("d{d}:{body}")));
                inner = if arr { format!("d{d}[2] s;") } else { format!("d{d} s;") };
                size = if arr { 2 * s } else { s };
            }
        }
        v.extend(sub(1, 5, "m"));
        let len = size - if omit { last } else { 0 };
        for s in [0x11, 0x80] {
            v.extend(data(5, &fill_from(len, s)));
        }
        v
    })
}
/// Structures that stand last, with trailing padding at any of their levels, of which the last ones are left out.
fn tails() -> Space {
    let n = (PADS.len() * 3 * 2 * 16 * 5 * 2) as u64;
    Space::new("tails", format!("last fields nested 1..=3 deep (a structure or an array of two), trailing padding of types {:?} at any set of the levels, the last 0..=4 of them left out, optionally a field without size behind each", PADS.map(|p| p.0)), n, move |mut i| {
        let (t, sz) = PADS[digit(&mut i, PADS.len() as u64) as usize];
        let depth = digit(&mut i, 3) as usize + 1;
        let arr = digit(&mut i, 2) == 1;
        let mask = digit(&mut i, 16) as usize;
        let drop = digit(&mut i, 5) as usize;
        let z = if i == 1 { "char[0] z;" } else { "" };
        let mut v = cat(&[header(), fmt("n:uint8_t a;uint16_t b;")]);
        let (mut inner, mut size) = (String::from("int16_t v;"), 2);
        for d in (0..=depth).rev() {
            let has = mask >> d & 1 == 1;
            let pad = if has { format!("{t} _padding0;") } else { String::new() };
            size += if has { sz } else { 0 };
            if d == 0 {
                v.extend(fmt(&format!("m:uint64_t timestamp;{inner}{pad}{z}")));
            } else {
                v.extend(fmt(&format!("d{d}:uint8_t w;{inner}{pad}{z}")));
                size += 1;
                inner = if arr { format!("d{d}[2] s;") } else { format!("d{d} s;") };
                size = if arr { 2 * size } else { size };
            }
        }
        v.extend(sub(1, 5, "m"));
        let pads = (0..=depth).filter(|d| mask >> d & 1 == 1).count();
        for s in [0x11, 0x80] {
            v.extend(data(5, &fill_from(8 + size - sz * drop.min(pads), s)));
        }
        v
    })
}
/// Every data length from none to four more than the format has.
pub fn misfits() -> Space {
    let bodies = [
        ("uint64_t timestamp;uint8_t a;uint8_t[4] _padding0;", 13),
        ("uint64_t timestamp;uint8_t[4] _padding0;uint8_t a;uint16_t[3] _padding1;", 19),
        ("uint64_t timestamp;uint32_t _padding0;", 12),
        ("n[2] x;uint64_t timestamp;n _padding0;", 17),
        ("uint8_t[5] _padding0;uint64_t timestamp;char[4] c;", 17),
        ("p x;uint64_t timestamp;p y;", 22),
        ("uint64_t timestamp;uint8_t _padding0;uint8_t _padding1;uint8_t _padding2;", 11),
    ];
    let n = bodies.len() as u64 * 32;
    Space::new("misfits", "seven formats with padding first, inside, last and nested x data of 0..=31 bytes (fewer, exactly and more than the format has)", n, move |mut i| {
        let (b, _) = bodies[digit(&mut i, bodies.len() as u64) as usize];
        let d = data(1, &fill(i as usize));
        cat(&[header(), fmt("n:uint8_t a;uint16_t b;"), fmt("p:uint8_t a;uint8_t[4] _padding0;uint16_t b;"), fmt(&format!("m:{b}")), sub(0, 1, "m"), d.clone(), log(b'6', 1, b"between"), d])
    })
}
/// Arrays of structures with arrays of structures with arrays, of chosen widths, and all elements equal, pairwise equal
/// or all distinct.
fn tensors() -> Space {
    Space::new("tensors", "arrays of 1..=4 structures of arrays of 1..=4 structures of an array of 1..=4 of each of 5 types; element values all equal, equal in runs, alternating, or distinct", 4 * 4 * 4 * 5 * 4, |mut i| {
        let (a, b, c) = (digit(&mut i, 4) as usize + 1, digit(&mut i, 4) as usize + 1, digit(&mut i, 4) as usize + 1);
        let (t, sz) = [("uint8_t", 1), ("int16_t", 2), ("float", 4), ("char", 1), ("bool", 1)][digit(&mut i, 5) as usize];
        let el = |k: usize| -> u8 {
            let x = match i {
                0 => 1,
                1 => (k / 2) as u8 + 1,
                2 => (k % 2) as u8 + 1,
                _ => k as u8 + 1,
            };
            if t == "bool" { x & 1 } else { x & 0x7f }
        };
        let n = a * b * c;
        let body: Vec<u8> = (0..n).flat_map(|k| (0..sz).map(move |j| if j == 0 { el(k) } else { 0x40 })).collect();
        cat(&[
            header(),
            fmt(&format!("v:{t}[{c}] e;")),
            fmt(&format!("r:v[{b}] e;")),
            fmt(&format!("m:uint64_t timestamp;r[{a}] e;")),
            sub(0, 1, "m"),
            data(1, &[&TS.to_le_bytes()[..], &body[..]].concat()),
        ])
    })
}
/// Every byte where a bool stands.
fn bools() -> Space {
    Space::new("bools", "each of the 256 bytes as a bool field, an element of a bool array, a bool in a nested structure, the value of bool information and multi-information, and the flag that continues multi-information", 256 * 6, |mut i| {
        let x = digit(&mut i, 256) as u8;
        let at = |k: u64| if k == i { x } else { 1 };
        cat(&[
            header(),
            info("bool k", &[at(3)]),
            multi_info(if i == 5 { x } else { 0 }, "bool[3] l", &[0, at(4), 0]),
            fmt("n:uint8_t h;bool b;"),
            fmt("m:uint64_t timestamp;bool b;bool[3] c;n d;n[2] e;"),
            sub(0, 1, "m"),
            data(1, &[&TS.to_le_bytes()[..], &[at(0), 0, at(1), 1, 7, at(2), 8, 0, 9, at(2)]].concat()),
        ])
    })
}
/// Chains of nested formats with arrays at every level.
fn nesting() -> Space {
    // (the property says up to 24 levels)
    let maxd = 23u64;
    let n = maxd * 3 * 4;
    Space::new("nesting", format!("nesting depth 1..={maxd} x array width 1..=3 at one level x position of the array level"), n, move |mut i| {
        let depth = digit(&mut i, maxd) + 1;
        let w = digit(&mut i, 3) + 1;
        let at = i; // array at level (depth*at/3)
        let lvl = depth * at / 4 + 1;
        let mut defs = vec![header(), fmt("l0:uint8_t a;int16_t b;")];
        let mut size = 3;
        for d in 1..=depth {
            let p = if d % 3 == 0 { "uint8_t[2] _padding0;" } else { "" };
            let c = if d == lvl { format!("l{}[{w}] c;", d - 1) } else { format!("l{} c;", d - 1) };
            defs.push(fmt(&format!("l{d}:uint16_t h;{c}{p}int8_t t;")));
            size = 2 + size * if d == lvl { w as usize } else { 1 } + if d % 3 == 0 { 2 } else { 0 } + 1;
        }
        defs.push(fmt(&format!("m:l{depth} r;uint64_t timestamp;l{depth} r2;")));
        defs.push(sub(0, 1, "m"));
        defs.push(data(1, &fill(2 * size + 8)));
        cat(&defs)
    })
}
/// Long histories: counts around one- and two-byte limits of everything a reader accumulates.
fn many(t: Tier) -> Space {
    let counts: Vec<usize> = t.pick(vec![2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4097], vec![2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049, 4097, 8193, 16385, 32769, 65535]);
    let n = counts.len() as u64 * 10;
    Space::new("many", format!("n in {counts:?} of: formats, subscriptions to one name, to n names, data messages, fields, repeated formats, information keys, log lines, subscribe/unsubscribe rounds, nested values (some without size)"), n, move |i| {
        let k = counts[i as usize / 10];
        let mut v = header();
        match i % 10 {
            0 => {
                for j in 0..k {
                    v.extend(fmt(&format!("f{j}:uint64_t timestamp;uint{}_t a;", [8, 16, 32, 64][j % 4])));
                }
                for (id, j) in [0, 1, k / 2, k - 1].into_iter().enumerate() {
                    v.extend(sub(0, id as u16, &format!("f{j}")));
                    v.extend(data(id as u16, &fill(8 + [1, 2, 4, 8][j % 4])));
                }
            }
            1 => {
                v.extend(fmt("m:uint64_t timestamp;uint8_t a;"));
                for j in 0..k {
                    v.extend(sub(j as u8, j as u16, "m"));
                }
                for j in (0..k).rev() {
                    v.extend(data(j as u16, &fill_from(9, j as u8)));
                }
            }
            2 => {
                for j in 0..k.min(4097) {
                    v.extend(fmt(&format!("f{j}:uint64_t timestamp;uint{}_t a;", [8, 16, 32, 64][j % 4])));
                }
                for j in 0..k.min(4097) {
                    v.extend(sub((j % 3) as u8, j as u16, &format!("f{j}")));
                    v.extend(data(j as u16, &fill_from(8 + [1, 2, 4, 8][j % 4], j as u8)));
                }
                v.extend(data(0, &fill(9)));
            }
            3 => {
                v.extend(cat(&[fmt("m:uint64_t timestamp;uint8_t a;"), sub(0, 7, "m")]));
                for j in 0..k {
                    v.extend(data(7, &fill_from(9, j as u8)));
                }
            }
            4 => {
                let k = k.min(5000);
                let mut s = String::from("m:uint64_t timestamp;");
                for j in 0..k {
                    s.push_str(&format!("char f{j};"));
                }
                if s.len() > 65535 {
                    return v;
                }
                v.extend(cat(&[fmt(&s), sub(0, 7, "m"), data(7, &(0..8 + k).map(|j| (j as u8) & 0x7f).collect::<Vec<_>>())]));
            }
            5 => {
                for j in 0..k {
                    v.extend(fmt(&format!("m:uint64_t timestamp;uint8_t[{}] a;", j % 5 + 1)));
                }
                v.extend(cat(&[sub(0, 7, "m"), data(7, &fill(8 + (k - 1) % 5 + 1))]));
            }
            6 => {
                for j in 0..k {
                    v.extend(info(&format!("uint16_t k{j}"), &fill_from(2, j as u8)));
                    v.extend(multi_info((j % 2) as u8, "char[2] same", &[b'a', b'b']));
                    v.extend(param("int32_t P", &(j as u32).to_le_bytes()));
                }
            }
            7 => {
                v.extend(cat(&[fmt("m:uint64_t timestamp;uint8_t a;"), sub(0, 7, "m")]));
                for j in 0..k {
                    v.extend(log(b'0' + (j % 8) as u8, j as u64, format!("line {j}").as_bytes()));
                    v.extend(dropout(j as u16));
                }
            }
            8 => {
                // values beyond what the property leaves open
                let k = k.min(2049);
                v.extend(cat(&[fmt("e:char[0] z;"), fmt("o:uint8_t a;"), fmt(&format!("m:uint64_t timestamp;o[{k}] o;e[{k}] e;uint8_t[{k}] b;")), sub(0, 7, "m")]));
                v.extend(data(7, &fill(8 + 2 * k)));
            }
            _ => {
                v.extend(cat(&[fmt("m:uint64_t timestamp;uint8_t a;"), fmt("w:uint8_t z;uint64_t timestamp;")]));
                for j in 0..k {
                    v.extend(sub((j % 2) as u8, (j % 5) as u16, if j % 3 == 0 { "m" } else { "w" }));
                    v.extend(data((j % 5) as u16, &fill_from(9, j as u8)));
                    if j % 4 == 1 {
                        v.extend(unsub((j % 5) as u16));
                    }
                }
            }
        }
        v
    })
}
/// As many nested values in one message as the properties require a reader to take.
fn plenty() -> Space {
    let v = [(3990usize, 1usize, 0usize), (3900, 100, 0), (3990, 30000, 0), (1, 32000, 0), (3990, 9000, 0), (2000, 20000, 20000), (0, 1, 65000), (3990, 1, 65000), (0, 21000, 0)];
    Space::list(
        "plenty",
        format!("(nested values without size, of one byte, bytes) {v:?} in one message, also two levels deep"),
        v.into_iter()
            .flat_map(|(e, o, b)| {
                let deep = (o / 3, e / 3);
                [
                    cat(&[header(), fmt("e:char[0] z;"), fmt("o:uint8_t a;"), fmt(&format!("m:uint64_t timestamp;o[{o}] o;e[{e}] e;uint8_t[{b}] b;")), sub(0, 7, "m"), data(7, &fill(8 + o + b)), dropout(3)]),
                    cat(&[header(), fmt("e:char[0] z;"), fmt("o:uint8_t a;"), fmt(&format!("g:o[{}] o;e[{}] e;", deep.0, deep.1)), fmt(&format!("m:uint64_t timestamp;g[3] g;uint8_t[{b}] b;")), sub(0, 7, "m"), data(7, &fill(8 + deep.0 * 3 + b)), dropout(3)]),
                ]
            })
            .collect(),
    )
}
/// Logs of more messages than a two-byte counter holds: every kind of message repeated, then a probe of each.
fn marathon(t: Tier) -> Space {
    let n: usize = t.pick(66_000, 263_000);
    Space::new("marathon", format!("{n} repetitions of each kind of message (contents change), followed by one message of every kind"), 16, move |i| {
        let mut v = cat(&[
            header(),
            fmt("n:uint16_t a;uint8_t[2] _padding0;"),
            fmt("m:uint64_t timestamp;uint8_t a;"),
            fmt("w:n[2] x;uint64_t timestamp;n y;uint8_t[3] _padding1;"),
        ]);
        if i >= 4 {
            v.extend(cat(&[sub(0, 7, "m"), sub(2, 9, "w")]));
        }
        for j in 0..n {
            let b = j as u8;
            match i {
                0 => v.extend(fmt(&format!("m:uint64_t timestamp;uint8_t[{}] a;", j % 7 + 1))),
                1 => v.extend(info("uint16_t k", &fill_from(2, b))),
                2 => v.extend(param("int32_t P", &(j as u32).to_le_bytes())),
                3 => v.extend(log(b'0' + b % 8, j as u64, b"line")),
                4 => v.extend(data(7, &fill_from(9, b))),
                5 => v.extend(data(9, &fill_from(20 + if j % 3 == 0 { 0 } else { 3 }, b))),
                6 => v.extend(multi_info(b % 2, "char[2] same", &[b'a' + b % 26, b'b'])),
                7 => v.extend(def_param(b % 4, "float P", &(j as f32).to_le_bytes())),
                8 => v.extend(tlog(b'0' + b % 8, j as u16, j as u64, b"line")),
                9 => v.extend(dropout(j as u16)),
                10 => v.extend(msg(b'Z', &[b])),
                11 => v.extend(sub(b % 3, (j % 5) as u16, if j % 2 == 0 { "m" } else { "w" })),
                12 => v.extend(cat(&[sub(b % 2, 3, if j % 3 == 0 { "m" } else { "w" }), data(3, &fill_from(if j % 3 == 0 { 9 } else { 23 }, b)), unsub(3)])),
                13 => v.extend(sync()),
                14 => v.extend(cat(&[data(9, &fill_from(20, b)), data(7, &fill_from(9, b)), log(b'6', j as u64, b"")])),
                _ => v.extend(cat(&[unsub(7), param("float Q", &[b, 0, 0, 0]), sub(1, 7, "m"), data(7, &fill_from(9, b)), info("uint8_t k", &[b])])),
            }
        }
        v.extend(cat(&[sub(0, 7, "w"), data(7, &fill_from(20, 3)), sub(0, 11, "w"), data(11, &fill_from(23, 5)), unsub(7), log(b'2', 1, b"end"), tlog(b'2', 1, 1, b"end"), dropout(1)]));
        v.extend(cat(&[info("uint8_t k", &[1]), multi_info(1, "uint8_t k", &[2]), param("int32_t P", &[1, 2, 3, 4]), def_param(1, "int32_t P", &[1, 2, 3, 4]), msg(b'Z', &[5]), data(11, &fill_from(23, 6))]));
        v
    })
}
/// Text contents: every one- and two-byte UTF-8 boundary in log strings; every byte in character arrays.
/// Text whose characters take several bytes, so that every byte offset falls inside a character for some shift.
pub fn wide(c: char, shift: usize, len: usize) -> String {
    let mut s = "x".repeat(shift);
    while s.len() + c.len_utf8() <= len {
        s.push(c);
    }
    s
}
fn wide_texts() -> Space {
    let mut v = vec![];
    for c in ['\u{e9}', '\u{20ac}', '\u{1f600}'] {
        for shift in 0..c.len_utf8() {
            for len in (1..40).chain([63, 64, 65, 66, 127, 130, 255, 258, 300, 1023, 1026, 5000, 65000]) {
                let s = wide(c, shift, len);
                let n = s.len();
                v.push(cat(&[
                    header(),
                    fmt(&format!("m:uint64_t timestamp;char[{n}] s;uint8_t e;")),
                    log(b'4', 3, s.as_bytes()),
                    tlog(b'5', 7, 3, s.as_bytes()),
                    info(&format!("char[{n}] k"), s.as_bytes()),
                    multi_info(0, &format!("char[{n}] k"), s.as_bytes()),
                    sub(0, 1, "m"),
                    log(b'4', 3, s.as_bytes()),
                    tlog(b'5', 7, 3, s.as_bytes()),
                    data(1, &[&fill(8)[..], s.as_bytes(), &[9]].concat()),
                    info(&format!("char[{n}] k"), s.as_bytes()),
                ]));
            }
        }
    }
    Space::list("wide-texts", "log strings, info values and character arrays of characters that take 2, 3 and 4 bytes at every shift, lengths 1..65000", v)
}
fn text() -> Space {
    let cps: Vec<char> = [0u32, 1, 9, 10, 13, 0x1f, 0x20, 0x22, 0x27, 0x5c, 0x7e, 0x7f, 0x80, 0xa0, 0xff, 0x7ff, 0x800, 0x2028, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x10ffff]
        .iter()
        .filter_map(|c| char::from_u32(*c))
        .collect();
    let mut v = vec![];
    for a in &cps {
        for b in &cps {
            let s: String = [*a, *b].iter().collect();
            v.push(cat(&[
                header(),
                fmt("m:uint64_t timestamp;"),
                log(b'4', 3, s.as_bytes()),
                sub(0, 1, "m"),
                tlog(b'4', 77, 3, s.as_bytes()),
                log(b'0', 3, s.as_bytes()),
                info(&format!("char[{}] k", s.len()), s.as_bytes()),
            ]));
        }
    }
    for b in 0..=255u8 {
        for c in [0u8, b'a', 0x80, 0xff] {
            v.push(cat(&[
                header(),
                fmt("m:uint64_t timestamp;char[3] s;char c;"),
                info("char[2] k", &[b, c]),
                sub(0, 1, "m"),
                data(1, &[&fill(8)[..], &[c, b, c, b]].concat()),
            ]));
        }
    }
    Space::list("text", "pairs of boundary code points in log strings; every byte value in character fields", v)
}
/// Header contents.
fn headers() -> Space {
    Space::new("headers", "every file version byte; every value of every timestamp byte", 256 + 8 * 256, |i| {
        let h = if i < 256 {
            header_v(i as u8, 1)
        } else {
            let i = i - 256;
            let mut t = [0x3cu8; 8];
            t[(i / 256) as usize] = i as u8;
            header_v(1, u64::from_le_bytes(t))
        };
        cat(&[h, fmt("m:uint64_t timestamp;"), sub(0, 1, "m"), data(1, &fill(8))])
    })
}
/// Logs with interior structure used by the fault and cut checks: one of each message kind.
pub fn omnibus() -> Vec<u8> {
    cat(&[
        header(),
        flags([1, 0, 0, 0, 0, 0, 0, 9], [0; 8], [0; 3]),
        info("char[3] sys_name", b"PX4"),
        fmt(N1),
        fmt(N2),
        fmt("m:uint64_t timestamp;n2 x;uint8_t[2] _padding0;"),
        fmt("w:uint8_t[5] a;uint64_t timestamp;"),
        param("int32_t P_A", &5i32.to_le_bytes()),
        def_param(3, "float P_B", &1.5f32.to_le_bytes()),
        multi_info(0, "char[2] x", b"ab"),
        multi_info(1, "char[2] x", b"cd"),
        msg(b'Z', &[1, 2, 3]),
        sub(0, 1, "m"),
        sub(1, 2, "w"),
        data(1, &fill(8 + 27 + 2)),
        data(2, &fill(13)),
        log(b'6', 99, b"hello"),
        tlog(b'3', 515, 100, b"tag"),
        data(1, &fill_from(8 + 27, 0x60)),
        dropout(300),
        sync(),
        param("float P_C", &2.5f32.to_le_bytes()),
        info("uint32_t ver_sw_release", &0x010203ffu32.to_le_bytes()),
        unsub(2),
        sub(0, 2, "m"),
        data(2, &fill_from(8 + 27, 0x21)),
        multi_info(0, "uint8_t[2] y", &[1, 2]),
        def_param(1, "int32_t P_D", &(-1i32).to_le_bytes()),
        msg(b'z', &[]),
        data(1, &fill_from(8 + 27, 0x33)),
    ])
}
/// Small logs of one or two messages each, for checks that multiply them by positions and schedules.
pub fn small() -> Vec<Vec<u8>> {
    let f = fmt("m:uint64_t timestamp;uint8_t a;");
    vec![
        header(),
        cat(&[header(), f.clone()]),
        cat(&[header(), f.clone(), sub(0, 1, "m"), data(1, &fill(9))]),
        cat(&[header(), info("char[0] k", b""), f.clone()]),
        cat(&[header(), msg(b'Z', &[]), msg(b'Z', &[]), msg(b'Z', &[0])]),
        cat(&[header(), f.clone(), sub(0, 1, "m"), dropout(0), sync(), log(b'0', 0, b""), data(1, &fill(9))]),
        cat(&[header(), f.clone(), sub(0, 1, "m"), tlog(b'0', 0, 0, &[0; 4]), unsub(1)]),
        cat(&[header(), flags([0; 8], [0; 8], [0; 3]), param("float p", &[0; 4]), def_param(0, "int32_t p", &[0; 4]), multi_info(0, "uint8_t[2] x", &[0, 0])]),
        cat(&[header(), f, sub(0, 1, "m"), data(1, &[0; 9]), data(1, &[0; 9])]),
    ]
}

pub fn all(t: Tier) -> Vec<Space> {
    vec![
        bits(), arrays(t), shapes(t), kinds(t), flagbits(), sizes(t), ids(), names(), twins(), stamps(), typenames(), nesting(), padding(), tails(), tensors(), bools(), many(t), plenty(), marathon(t), text(), wide_texts(), headers(),
        Space::list("omnibus", "one log with every message kind; nine small logs", std::iter::once(omnibus()).chain(small()).collect()),
    ]
}
