//! Environment faults: C05 truncation, C06 chunked reads, C07 reader failures, C10 appended-data limit,
//! C11 incompatible flags, C13 streaming.
use super::*;
use crate::corpus::{self, digit, fill, fill_from, omnibus, small, Space};
use crate::readers::*;
use crate::wire::*;
use rm::Exp;
use std::cell::Cell;
use std::io::ErrorKind;
use std::rc::Rc;
use std::sync::Arc;

/// (log, cut) pairs over all logs of a space, as one indexed space of truncated logs.
fn cuts_of(s: Space, lo_only: bool) -> Space {
    let mut offs = vec![0u64];
    for i in 0..s.count {
        let n = (s.gen)(i).len() as u64;
        // long logs: all cuts up to 400, then around every message boundary
        offs.push(offs[i as usize] + if lo_only { n.min(400) } else { n });
    }
    let tot = *offs.last().unwrap();
    let offs = Arc::new(offs);
    let g = s.gen.clone();
    Space::new(s.name, format!("every cut of: {}", s.what), tot, move |i| {
        let k = offs.partition_point(|o| *o <= i) - 1;
        let b = g(k as u64);
        b[..(i - offs[k]) as usize].to_vec()
    })
}
fn pick(t: Tier, names: &[&str]) -> Vec<Space> {
    corpus::all(t).into_iter().filter(|s| names.contains(&s.name)).collect()
}
pub fn thin(s: Space, step: u64) -> Space {
    let g = s.gen.clone();
    Space::new(s.name, format!("every {step}th of: {}", s.what), s.count / step, move |i| g(i * step))
}
fn big_logs() -> Space {
    let mk = |n: usize| {
        cat(&[header(), fmt("m:uint64_t timestamp;"), msg(b'Z', &fill(n)), sub(0, 1, "m"), data(1, &fill(8)), log(b'6', 1, &vec![b'x'; n.saturating_sub(9)])])
    };
    Space::list("big", "messages of 255..257, 4096 and 65535 bytes", [255usize, 256, 257, 4096, 65535].iter().map(|n| mk(*n)).collect())
}
fn c05(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    against_model(b, &Cfg::all(), ctx)?;
    let mut c = Cfg::default();
    c.allow = Some(vec!["m".into()]);
    against_model(b, &c, ctx)?;
    Ok(())
}
fn c05_fams(t: Tier) -> Vec<Family> {
    let mut v = vec![
        cuts_of(Space::list("omnibus", "one log with every message kind, and nine small logs", std::iter::once(omnibus()).chain(small()).collect()), false),
        cuts_of(pick(t, &["kinds"]).remove(0), false),
        cuts_of(big_logs(), false),
        cuts_of(pick(t, &["nesting"]).remove(0), false),
        cuts_of(super::c_hist::words_space(t.pick(2, 3)), false),
    ];
    let sh = pick(t, &["shapes"]).remove(0);
    v.push(cuts_of(thin(sh, t.pick(37, 7)), false));
    let mut fams = over(v, c05);
    let small_cuts = cuts_of(Space::list("chunked", "one log with every message kind, nine small logs, and one with a 5000-byte message", std::iter::once(omnibus()).chain(small()).chain([(big_logs().gen)(3)[..5200].to_vec()]).collect()), false);
    fams.push(split_reads("chunked", small_cuts, t));
    fams.push(growing(t));
    fams
}
/// A log that is at its end when it is read, and has grown when it is asked again: what was cut stays the end.
fn growing(t: Tier) -> Family {
    // the contents look like messages, so that taking up in the middle of one is not an error by itself
    let inner = cat(&[dropout(1), log(b'6', 7, b"inner"), dropout(2), msg(b'Z', &[])]);
    let hostile = cat(&[header(), fmt("m:uint64_t timestamp;uint8_t[46] a;"), msg(b'Z', &inner), sub(0, 1, "m"), data(1, &[&fill(8)[..], &inner[..], &vec![0; 46usize.saturating_sub(inner.len())][..]].concat()[..54]), log(b'5', 1, b"last")]);
    let logs: Vec<Vec<u8>> = [omnibus(), hostile].into_iter().chain(small()).chain((0..t.pick(60, 600)).map(|i| (super::c_hist::words_space(3).gen)(i * 13824 / t.pick(60, 600)))).collect();
    let idx: Vec<(usize, usize)> = logs.iter().enumerate().flat_map(|(l, b)| (0..b.len()).map(move |c| (l, c))).collect();
    Family::new(
        "growing",
        "a reader at its end once, twice or three times at every byte of a log with every message kind, of one whose contents look like messages, of small logs and of histories, and then with the rest, whole or byte by byte: the cut stays the end",
        idx.len() as u64 * 6,
        move |mut i, ctx| {
            let times = digit(&mut i, 3) as u32 + 1;
            let max = [usize::MAX, 1][digit(&mut i, 2) as usize];
            let (l, at) = idx[i as usize];
            let (b, cfg) = (&logs[l], Cfg::all());
            let e = rm::expect(&b[..at], &cfg);
            let got = run_reader(Growing { data: b, pos: 0, at, times, max }, &cfg, cap_for(b.len()));
            tally(&e, &got, ctx);
            rm::compare(&e, &got).map_err(|w| Fail::new(w, format!("at its end {times} times at byte {at}, pieces of {max}, log {}", hex(b))))
        },
        |i| format!("{i}"),
    )
}
/// Every log of a space delivered in pieces, compared with the model.
fn split_reads(name: &str, s: Space, t: Tier) -> Family {
    let maxes = t.pick(vec![1usize, 3, 64], vec![1, 2, 3, 5, 7, 16, 64, 255, 256, 4095]);
    let (nm, g, show) = (maxes.len() as u64, s.gen.clone(), s.show());
    Family::new(
        name,
        &format!("{}; read in pieces of at most {maxes:?} bytes, with and without an interruption before each", s.what),
        s.count * nm * 2,
        move |mut i, ctx| {
            let max = maxes[digit(&mut i, nm) as usize];
            let every = digit(&mut i, 2) as u32;
            let b = g(i);
            let cfg = Cfg::all();
            let mut r = Chunked::new(&b);
            r.max = max;
            r.every = every;
            let e = rm::expect(&b, &cfg);
            let got = run_reader(r, &cfg, cap_for(b.len()));
            tally(&e, &got, ctx);
            rm::compare(&e, &got).map_err(|w| Fail::new(w, format!("pieces of {max}, {every} interruptions before each, log {}", hex(&b))))
        },
        move |i| show(i / nm / 2),
    )
}

// ---------- C06 ----------
struct Sched {
    log: Arc<Vec<u8>>,
    base: Arc<Vec<Obs>>,
}
fn sched(b: Vec<u8>) -> Sched {
    let base = run(&b, &Cfg::all());
    Sched { log: Arc::new(b), base: Arc::new(base) }
}
fn chunk_case(s: &Sched, cuts: Vec<usize>, intr: Vec<(usize, u32)>, max: usize, ctx: &mut Ctx) -> Result<(), Fail> {
    let mut r = Chunked::new(&s.log);
    let what = format!("log {} cuts {cuts:?} interruptions {intr:?} max {max}", clip(&hex(&s.log), 1200));
    ctx.state(&(s.log.len(), &cuts, &intr, max));
    r.cuts = cuts;
    r.intr = intr;
    r.max = max;
    reader_case(s, r, what, ctx)
}
fn calls_case(s: &Sched, every: u32, calls: Vec<(u64, Dev)>, max: usize, ctx: &mut Ctx) -> Result<(), Fail> {
    let mut r = Chunked::new(&s.log);
    let what = format!("log {} interruptions before every delivery {every} deviating calls {calls:?} max {max}", clip(&hex(&s.log), 1200));
    ctx.state(&(s.log.len(), every, &calls, max));
    r.every = every;
    r.calls = calls;
    r.max = max;
    reader_case(s, r, what, ctx)
}
fn reader_case(s: &Sched, r: Chunked, what: String, ctx: &mut Ctx) -> Result<(), Fail> {
    let steps = r.steps.clone();
    let got = run_reader(r, &Cfg::all(), cap_for(s.log.len()));
    ctx.execs += 1;
    ctx.transitions += steps.get();
    ctx.outcome(&got);
    if got != *s.base {
        let i = got.iter().zip(s.base.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(s.base.len()));
        return Err(Fail::new(
            format!("item {i} is {} instead of {}", got.get(i).map_or("missing".into(), rm::show), s.base.get(i).map_or("nothing".into(), rm::show)),
            what,
        ));
    }
    Ok(())
}
fn c06_fams(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    // logs: whole, one cut mid-message (error tail must be the same too), with errors inside
    let om = omnibus();
    let cutlog = om[..om.len() - 7].to_vec();
    let bigone = cat(&[header(), fmt("m:uint64_t timestamp;"), msg(b'Z', &fill(700)), sub(0, 1, "m"), data(1, &fill(8))]);
    let logs: Vec<Arc<Sched>> = [om.clone(), cutlog, bigone].into_iter().map(|b| Arc::new(sched(b))).collect();
    for (li, s) in logs.iter().enumerate() {
        let n = s.log.len() as u64;
        let s1 = s.clone();
        fams.push(Family::new(
            &format!("uniform{li}"),
            "reads limited to k bytes for every k up to the log length",
            n,
            move |i, ctx| chunk_case(&s1, vec![], vec![], i as usize + 1, ctx),
            |i| format!("max {}", i + 1),
        ));
        let s1 = s.clone();
        fams.push(Family::new(
            &format!("one_interrupt{li}"),
            "1..=3 interruptions before every byte offset x whole or one-byte reads",
            n * 6,
            move |mut i, ctx| {
                let k = digit(&mut i, 3) as u32 + 1;
                let m = if digit(&mut i, 2) == 0 { usize::MAX } else { 1 };
                chunk_case(&s1, vec![], vec![(i as usize, k)], m, ctx)
            },
            |i| format!("{i}"),
        ));
        let s1 = s.clone();
        // pairs of deviations: each is a cut or an interruption at an offset
        let w = t.pick(100u64, n);
        let case = move |mut i: u64| {
            let kinds = corpus::digit(&mut i, 4);
            let d = corpus::digit(&mut i, w);
            (i, i + d, kinds)
        };
        fams.push(Family::new(
            &format!("two_deviations{li}"),
            &format!("every pair of deviations (short read or interruption each) at offsets less than {w} bytes apart"),
            n * w * 4,
            move |i, ctx| {
                let (a, b, kinds) = case(i);
                if b >= n {
                    ctx.skipped += 1;
                    return Ok(());
                }
                let (mut cuts, mut intr) = (vec![], vec![]);
                for (x, k) in [(a, kinds & 1), (b, kinds >> 1)] {
                    if k == 0 {
                        cuts.push(x as usize);
                    } else {
                        intr.push((x as usize, 1));
                    }
                }
                chunk_case(&s1, cuts, intr, usize::MAX, ctx)
            },
            move |i| format!("offset, offset, kinds (bit set: interruption): {:?}", case(i)),
        ));
    }
    // all compositions of a tiny log's tail: every subset of cut points
    let tiny = cat(&[header(), dropout(5), msg(b'Z', &[1])]);
    let bits = t.pick(9, 9) + 0;
    let s = Arc::new(sched(tiny));
    fams.push(Family::new(
        "compositions_tail",
        "every way to split the messages after the header of a 25-byte log (all subsets of cut points), with and without an interruption at every cut",
        1 << (bits + 1),
        move |i, ctx| {
            let intr = i & 1 == 1;
            let cuts: Vec<usize> = (0..bits).filter(|b| (i >> 1) >> b & 1 == 1).map(|b| 16 + b as usize).collect();
            let iv = if intr { cuts.iter().map(|c| (*c, 1)).collect() } else { vec![] };
            chunk_case(&s, cuts, iv, usize::MAX, ctx)
        },
        |i| format!("{i:b}"),
    ));
    let s = Arc::new(sched(cat(&[header(), fmt("m:uint64_t timestamp;"), sub(0, 1, "m"), data(1, &fill(8))])));
    let n = t.pick(14u32, 20);
    let base = s.log.len() - n as usize;
    fams.push(Family::new(
        "compositions_data",
        "every way to split the last bytes (subscription and data message) of a log",
        1 << n,
        move |i, ctx| {
            let cuts: Vec<usize> = (0..n).filter(|b| i >> b & 1 == 1).map(|b| base + b as usize).collect();
            chunk_case(&s, cuts, vec![], usize::MAX, ctx)
        },
        |i| format!("{i:b}"),
    ));
    // the header
    let s = Arc::new(sched(cat(&[header(), dropout(1)])));
    fams.push(Family::new(
        "compositions_header",
        "every way to split the 16 header bytes",
        1 << 16,
        move |i, ctx| {
            let cuts: Vec<usize> = (0..16).filter(|b| i >> b & 1 == 1).map(|b| b as usize).collect();
            chunk_case(&s, cuts, vec![], usize::MAX, ctx)
        },
        |i| format!("{i:b}"),
    ));
    // large messages: chunk sizes around buffer sizes
    let s = Arc::new(sched((big_logs().gen)(4)));
    let sizes: Vec<usize> = [1usize, 2, 3, 7, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32768, 65534, 65535, 65536].to_vec();
    fams.push(Family::new(
        "big",
        "64 KiB messages delivered in pieces of many sizes",
        sizes.len() as u64,
        move |i, ctx| chunk_case(&s, vec![], vec![(100, 2), (65000, 3)], sizes[i as usize], ctx),
        |i| format!("{i}"),
    ));
    // by call rather than by offset: whatever the sizes are that the code asks for
    for (k, n) in [255usize, 4097, 9000, 65535].into_iter().enumerate() {
        let b = cat(&[header(), fmt(&format!("m:uint64_t timestamp;uint8_t[{}] a;", n - 10)), msg(b'Z', &fill(n)), sub(0, 1, "m"), data(1, &fill(n - 2)), log(b'6', 1, &vec![b'x'; n - 9])]);
        let s = Arc::new(sched(b));
        let s1 = s.clone();
        let maxes = [usize::MAX, 8192, 4096, 4095, 1000, 3, 1];
        fams.push(Family::new(
            &format!("every_call{k}"),
            &format!("messages of {n} bytes; 1..=3 interruptions before every delivery, with reads limited to many sizes"),
            maxes.len() as u64 * 3,
            move |mut i, ctx| {
                let every = digit(&mut i, 3) as u32 + 1;
                calls_case(&s1, every, vec![], maxes[i as usize], ctx)
            },
            |i| format!("{i}"),
        ));
        // at most this many calls, so that later deviations never happen
        let (c, nd) = (t.pick(32u64, 100), DEVS.len() as u64);
        let apart = if n > 60000 { t.pick(0, 2) } else { c };
        let maxes = [usize::MAX, 4096, 1000];
        fams.push(Family::new(
            &format!("two_calls{k}"),
            &format!("messages of {n} bytes; every pair of deviations (interruption, one byte, half, all but one byte) at the first {c} reads, at most {apart} apart"),
            c * c * nd * nd * maxes.len() as u64,
            move |mut i, ctx| {
                let m = maxes[digit(&mut i, 3) as usize];
                let (d1, d2) = (DEVS[digit(&mut i, nd) as usize], DEVS[digit(&mut i, nd) as usize]);
                let (a, b) = (digit(&mut i, c), i);
                if b < a || b - a > apart || b == a && d2 != d1 {
                    ctx.skipped += 1;
                    return Ok(());
                }
                calls_case(&s, 0, vec![(a, d1), (b, d2)], m, ctx)
            },
            |i| format!("{i}"),
        ));
    }
    // every message kind read byte by byte and with an interruption before every byte
    let k = pick(t, &["kinds"]).remove(0);
    let g = k.gen.clone();
    fams.push(Family::new(
        "kinds_bytewise",
        "every message kind, read in 1, 2, 3 and 5 byte pieces with interruptions before every read",
        k.count * 4,
        move |i, ctx| {
            let b = g(i / 4);
            let n = b.len();
            let s = sched(b);
            chunk_case(&s, vec![], (0..n).map(|p| (p, 1)).collect(), [1, 2, 3, 5][(i % 4) as usize], ctx)
        },
        |i| format!("{i}"),
    ));
    fams
}

// ---------- C07 ----------
/// Does the error, or what it was caused by, say what the reader said?
pub fn carries(x: &std::io::Error) -> bool {
    let mut at: Option<&dyn std::error::Error> = Some(x);
    while let Some(e) = at {
        if e.to_string().contains("injected") {
            return true;
        }
        at = e.source();
    }
    false
}
fn fail_case(b: &[u8], at: usize, kind: ErrorKind, times: u32, ctx: &mut Ctx) -> Result<(), Fail> {
    let what = format!("log {} failing at byte {at} with {kind:?} x{times}", clip(&hex(b), 1200));
    let failed = Rc::new(Cell::new(0));
    let r = Failing { data: b, pos: 0, at, kind, times, failed: failed.clone() };
    let (fr, _) = rm::frames(b);
    let cap = fr.len() + 4;
    let got = run_reader(r, &Cfg::all(), cap);
    ctx.execs += 1;
    ctx.transitions += got.len() as u64;
    ctx.state(&(b.len(), at, format!("{kind:?}"), times));
    ctx.outcome(&got);
    if failed.get() == 0 {
        return Err(Fail::new("the parser never asked for the failing byte".to_string(), what));
    }
    // the complete messages before the failing byte
    let full = rm::expect(b, &Cfg::all());
    let n = full.ends.iter().filter(|e| **e <= at).count();
    for (i, x) in full.items[..n].iter().enumerate() {
        match got.get(i) {
            Some(g) if rm::matches(x, g) => {}
            g => return Err(Fail::new(format!("item {i} before the failure: {:?} instead of {}", g.map(rm::show), rm::show_exp(x)), what)),
        }
    }
    if got.get(n) != Some(&Obs::Err) {
        return Err(Fail::new(format!("item {n}: the failure is not reported: {:?}", got.get(n).map(rm::show)), what));
    }
    for (i, g) in got.iter().enumerate().skip(n + 1) {
        if *g != Obs::Err {
            return Err(Fail::new(format!("item {i} after the failure: {}", rm::show(g)), what));
        }
    }
    // the error is the reader's
    let r = Failing { data: b, pos: 0, at, kind, times, failed: failed.clone() };
    failed.set(0);
    let e = guard(|| {
        let mut p = parser(r, &Cfg::all());
        for _ in 0..n {
            p.next();
        }
        p.next().and_then(|x| x.err())
    })
    .map_err(|p| Fail::new(format!("panic: {p}"), what.clone()))?;
    match e {
        Some(yule_log::errors::ULogError::Io(x)) if x.kind() == kind && carries(&x) => Ok(()),
        e => Err(Fail::new(format!("item {n}: the reader's error is reported as {e:?}"), what)),
    }
}
fn c07_fams(t: Tier) -> Vec<Family> {
    let mut fams = vec![];
    let om = Arc::new(omnibus());
    let n = om.len() as u64 + 1;
    let times = [1u32, 2, u32::MAX];
    {
        let om = om.clone();
        fams.push(Family::new(
            "omnibus",
            "failure at every byte (and at the end) of a log with every message kind x 20 error kinds x once/twice/for ever",
            n * 20 * 3,
            move |mut i, ctx| {
                let at = digit(&mut i, n) as usize;
                let k = KINDS[digit(&mut i, 20) as usize];
                fail_case(&om, at, k, times[i as usize], ctx)
            },
            move |i| format!("byte {}", i % n),
        ));
    }
    let logs: Vec<Vec<u8>> = small().into_iter().chain((0..t.pick(200, 900)).map(|i| (super::c_hist::words_space(3).gen)(i * 13824 / t.pick(200, 900)))).collect();
    let mut idx = vec![];
    for (l, b) in logs.iter().enumerate() {
        for at in 0..=b.len() {
            for tm in [1u32, u32::MAX] {
                idx.push((l, at, tm));
            }
        }
    }
    fams.push(Family::new(
        "histories",
        "failure at every byte of small logs and of three-message histories, once and for ever",
        idx.len() as u64,
        move |i, ctx| {
            let (l, at, tm) = idx[i as usize];
            fail_case(&logs[l], at, ErrorKind::Other, tm, ctx)
        },
        |i| format!("{i}"),
    ));
    // zero payloads: after a failure the bytes that follow must not be taken for messages. Bodies that look like framed messages.
    let inner = cat(&[dropout(1), dropout(2), log(b'6', 7, b"inner"), msg(b'Z', &[])]);
    let hostile = cat(&[header(), fmt("m:uint64_t timestamp;uint8_t[46] a;"), msg(b'Z', &inner), sub(0, 1, "m"), data(1, &[&fill(8)[..], &inner[..46.min(inner.len())], &vec![0; 46usize.saturating_sub(inner.len())][..]].concat()), log(b'5', 1, b"last")]);
    let h = Arc::new(hostile);
    let n2 = h.len() as u64 + 1;
    fams.push(Family::new(
        "embedded",
        "failure at every byte of messages whose contents look like messages",
        n2 * 2,
        move |i, ctx| fail_case(&h, (i / 2) as usize, ErrorKind::TimedOut, [1, u32::MAX][(i % 2) as usize], ctx),
        |i| format!("{i}"),
    ));
    // failures by read call on messages larger than any buffer
    let huge = Arc::new(cat(&[header(), fmt("m:uint64_t timestamp;uint8_t[40000] a;"), msg(b'Z', &fill(65000)), sub(0, 1, "m"), data(1, &fill(40008)), log(b'5', 1, b"last")]));
    let step = t.pick(97usize, 13);
    let n4 = (huge.len() / step) as u64;
    fams.push(Family::new(
        "huge",
        &format!("failure at every {step}th byte of a log with messages of 65000 and 40008 bytes, and at every byte around 8 KiB multiples"),
        n4 + 13 * 21,
        move |i, ctx| {
            let at = if i < n4 {
                i as usize * step
            } else {
                let k = (i - n4) as usize;
                (k / 21 + 1) * 8192 + k % 21 - 10
            };
            fail_case(&huge, at.min(huge.len()), ErrorKind::Other, 1, ctx)
        },
        |i| format!("{i}"),
    ));
    let big = Arc::new((big_logs().gen)(3));
    let n3 = big.len() as u64 + 1;
    fams.push(Family::new(
        "big",
        "failure at every byte of a log with 4 KiB messages",
        n3,
        move |i, ctx| fail_case(&big, i as usize, ErrorKind::Other, 1, ctx),
        |i| format!("{i}"),
    ));
    fams
}

// ---------- C10, C11 ----------
pub fn appended(t: Tier) -> Vec<Space> {
    // a body whose messages have distinct lengths, and appended bytes that look like messages
    let body = cat(&[
        fmt("m:uint64_t timestamp;uint8_t a;"),
        info("char[2] k", b"hi"),
        sub(0, 1, "m"),
        data(1, &fill(9)),
        msg(b'Z', &[]),
        log(b'6', 5, b"abc"),
        data(1, &fill_from(9, 0x40)),
        dropout(7),
    ]);
    let junk = cat(&[log(b'6', 9, b"crash"), data(1, &fill_from(9, 0x70)), vec![0xff, 0xff, 0xff, 0x44, 0x00]]);
    let total = (16 + 43 + body.len() + junk.len()) as u64;
    let lens = total + 6;
    let (b1, j1) = (body.clone(), junk.clone());
    let mk = move |c: u8, x: u8, o: [u64; 3]| cat(&[header(), flags([c, 0, 0, 0, 0, 0, 0, 0], [x, 0, 0, 0, 0, 0, 0, 0], o), b1.clone(), j1.clone()]);
    let mk2 = mk.clone();
    let mk3 = mk.clone();
    let (body3, junk3) = (body.clone(), junk.clone());
    let big = (body, junk);
    vec![
        Space::new("offsets", "first non-zero offset at every byte of the file and past it x slot 1..=3 x appended flag set/clear", lens * 6, move |mut i| {
            let slot = digit(&mut i, 3) as usize;
            let x = digit(&mut i, 2) as u8;
            let mut o = [0u64; 3];
            o[slot] = i + 1;
            mk(0, 1 - x, o)
        }),
        Space::new("offset_pairs", "two ascending offsets at all positions, in slots 1 and 2, 1 and 3, 2 and 3, or with a third behind them (the first one counts)", 4 * t.pick(lens, lens * lens) * if t == Tier::Quick { 40 } else { 1 }, move |mut i| {
            let l = digit(&mut i, 4);
            let m = if t == Tier::Quick { 40 } else { lens };
            let d = digit(&mut i, m);
            let a = i + 1;
            let b = a + 1 + d;
            mk2(1, 1, [[a, b, 0], [a, 0, b], [0, a, b], [a, b, b + 1 + d]][l as usize])
        }),
        Space::list("huge", "offsets at the extremes of 64 and 32 bits", {
            let mut v = vec![];
            for h in [u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 1 << 32, (1 << 32) + 60, (1 << 32) - 1, 1 << 31, 1 << 40] {
                for s in 0..3 {
                    for x in 0..2 {
                        let mut o = [0; 3];
                        o[s] = h;
                        v.push(mk3(1, x, o));
                    }
                }
            }
            v
        }),
        Space::list("large_file", "offsets around 65536 and 131072 in logs longer than that", {
            let mut v = vec![];
            let pad = cat(&[msg(b'Z', &fill(65000)), msg(b'z', &fill(65000)), msg(b'Z', &fill(400))]);
            for base in [65536u64, 131072, 65059, 65062, 130062, 130065] {
                for d in -6i64..=6 {
                    v.push(cat(&[header(), flags([0; 8], [1, 0, 0, 0, 0, 0, 0, 0], [(base as i64 + d) as u64, 0, 0]), pad.clone(), big.0.clone(), big.1.clone()]));
                }
            }
            v
        }),
        Space::new("versions", "every version byte x offset at every second byte, behind a message or in it, x refused, short and clear flag bits in front or behind", 256 * 16 * 5, move |mut i| {
            let ver = digit(&mut i, 256) as u8;
            let at = digit(&mut i, 16) as usize;
            let other = [vec![], flags([0; 8], [3, 0, 0, 0, 0, 0, 0, 0], [17, 0, 0]), msg(b'B', &[&[0u8; 8][..], &[1, 0, 0, 0, 0, 0, 0, 0], &[20; 15]].concat()), flags([0; 8], [0, 0, 0, 0, 0, 0, 0, 1], [0; 3]), msg(b'B', &[])][i as usize].clone();
            let mut o = 16 + 43 + other.len();
            let front = at % 2 == 0;
            let ms = rm::frames(&cat(&[header(), body3.clone()])).0.iter().map(|(_, _, p)| 3 + p.len()).collect::<Vec<_>>();
            o += ms[..=at / 2].iter().sum::<usize>() - if i == 0 && at % 4 == 3 { 1 } else { 0 };
            let f = flags([0; 8], [1, 0, 0, 0, 0, 0, 0, 0], [o as u64, 0, 0]);
            let mut h = header();
            h[7] = ver;
            cat(&[h, if front { cat(&[other, f]) } else { cat(&[f, other]) }, body3.clone(), junk3.clone()])
        }),
        Space::new("late_flags", "flag-bits message after k definition messages, offset at every byte", 4 * 90, move |i| {
            let k = (i % 4) as usize;
            let o = i / 4 * 2 + 1;
            let ps = [fmt("p:uint8_t a;"), info("char[1] k", b"x"), msg(b'Z', &[0; 5])];
            cat(&[header(), ps[..k.min(3)].concat(), flags([0; 8], [1, 0, 0, 0, 0, 0, 0, 0], [0, 0, o]), fmt("m:uint64_t timestamp;"), sub(0, 1, "m"), data(1, &fill(8)), data(1, &fill(8))])
        }),
    ]
}
/// C10: compare with the model, and check that the reader was not needed beyond the limit for what was yielded.
fn c10(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    against_model(b, &Cfg::all(), ctx)?;
    against_model(b, &Cfg::default().allow(&["m"]), ctx)?;
    Ok(())
}
/// Logs of more than 4 GiB, with and without appended data behind that: the items of the same log with the body only
/// twice, and the body's item as often as it is repeated.
fn beyond_4g(t: Tier) -> Family {
    const REPS: u64 = 65540;
    let bodies = [msg(b'Z', &fill(65535)), data(2, &fill(65533))];
    let tail = cat(&[data(1, &fill(9)), log(b'6', 5, b"abc"), data(1, &fill_from(9, 0x40)), dropout(7), data(1, &fill_from(9, 0x50))]);
    // None: the flag is clear; otherwise the offset relative to the tail
    let offs: Vec<Option<i64>> = match t {
        Tier::Quick => vec![None, Some(14), Some(20), Some(-7)],
        Tier::Thorough => std::iter::once(None).chain((-4..=tail.len() as i64 + 2).map(Some)).collect(),
    };
    let no = offs.len() as u64;
    let (o2, t2) = (offs.clone(), tail.len());
    Family::new(
        "beyond_4g",
        "logs of more than 4 GiB (unknown messages; unlisted data; compared with the model on the same log with the repetitions taken out) x appended-data flag clear, or set with offsets around the messages behind that",
        2 * no,
        move |mut i, ctx| {
            let body = &bodies[digit(&mut i, 2) as usize];
            let off = offs[i as usize];
            let mk = |shift: u64| {
                let defs = cat(&[fmt("m:uint64_t timestamp;uint8_t a;"), fmt("u:uint64_t timestamp;"), sub(0, 1, "m"), sub(0, 2, "u")]);
                let at = (16 + 43 + defs.len() + 2 * body.len()) as u64 + shift;
                let fl = match off {
                    None => flags([0; 8], [0; 8], [at, 0, 0]),
                    Some(o) => flags([0; 8], [1, 0, 0, 0, 0, 0, 0, 0], [(at as i64 + o) as u64, 0, 0]),
                };
                cat(&[header(), fl, defs])
            };
            let shift = (REPS - 2) * body.len() as u64;
            let cfg = Cfg::all().allow(&["m"]);
            let is_body = |o: &Obs| matches!(o, Obs::Unhandled { .. } | Obs::Ignored(_));
            let mut e = rm::expect(&[mk(0), body.clone(), body.clone(), tail.clone()].concat(), &cfg);
            let n = e.items.len();
            e.items.dedup_by(|a, b| matches!((a, b), (Exp::Is(a), Exp::Is(b)) if is_body(a) && a == b));
            let want = REPS - 2 + (n - e.items.len()) as u64;
            let head = mk(shift);
            let mut repeats = 0;
            let what = format!("head {} then {REPS} times {} then {}", hex(&head), clip(&hex(body), 40), hex(&tail));
            let got = guard(|| {
                let mut p = parser(Long::new(&head, body, REPS, &tail), &cfg);
                let mut v: Vec<Obs> = vec![];
                let mut n = 0u64;
                let mut ended = 0;
                while ended < 3 && n < REPS + 40 {
                    match p.next() {
                        None => ended += 1,
                        Some(x) => {
                            n += 1;
                            let mut o = item(&x);
                            if ended > 0 {
                                o = Obs::Late(Box::new(o));
                            }
                            if let Obs::Flags { off, .. } = &mut o {
                                off[0] = off[0].wrapping_sub(shift);
                            }
                            if is_body(&o) && v.last() == Some(&o) {
                                repeats += 1;
                            } else {
                                v.push(o);
                            }
                        }
                    }
                }
                v
            });
            let got = got.unwrap_or_else(|p| vec![Obs::Panic(p)]);
            tally(&e, &got, ctx);
            ctx.transitions += repeats;
            rm::compare(&e, &got).map_err(|w| Fail::new(w, what.clone()))?;
            if repeats != want {
                return Err(Fail::new(format!("the body's item is yielded {} times instead of {}", repeats + 1, want + 1), what));
            }
            Ok(())
        },
        move |i| format!("body {} offset {:?} relative to the last {t2} bytes", i % 2, o2[i as usize / 2]),
    )
}
fn c11_spaces(t: Tier) -> Vec<Space> {
    fn tail() -> Vec<u8> {
        cat(&[fmt("m:uint64_t timestamp;"), sub(0, 1, "m"), data(1, &fill(8))])
    }
    let mk = move |c: [u8; 8], x: [u8; 8]| cat(&[header(), flags(c, x, [0, 0, 0]), tail()]);
    let (m1, m2, m3, m4) = (mk, mk, mk, mk);
    vec![
        Space::new("incompat_byte", "every value of every incompatible-flag byte x first byte's known bit", 8 * 256 * 2, move |mut i| {
            let v = digit(&mut i, 256) as u8;
            let p = digit(&mut i, 8) as usize;
            let mut x = [0u8; 8];
            x[0] = i as u8;
            x[p] |= v;
            m1([0; 8], x)
        }),
        Space::new("incompat_bit_pairs", "every pair of the 64 incompatible bits", 64 * 64, move |i| {
            let mut x = [0u8; 8];
            for b in [i / 64, i % 64] {
                x[(b / 8) as usize] |= 1 << (b % 8);
            }
            m2([0; 8], x)
        }),
        Space::new("compat_byte", "every value of every compatible-flag byte x known incompatible bit", 8 * 256 * 2, move |mut i| {
            let v = digit(&mut i, 256) as u8;
            let p = digit(&mut i, 8) as usize;
            let mut c = [0u8; 8];
            c[p] = v;
            m3(c, [i as u8, 0, 0, 0, 0, 0, 0, 0])
        }),
        Space::new("compat_incompat", "every compatible byte 0 x every incompatible byte 0", 65536, move |i| {
            let mut c = [0xaau8; 8];
            c[0] = i as u8;
            m4(c, [(i >> 8) as u8, 0, 0, 0, 0, 0, 0, 0])
        }),
        Space::new("positions", "flag-bits message at every place of the definitions section, known and unknown bits", 4 * 256, move |i| {
            let k = (i % 4) as usize;
            let ps = [fmt("p:uint8_t a;"), info("char[1] k", b"x"), param("float f", &[0; 4])];
            cat(&[header(), ps[..k].concat(), flags([1; 8], [(i / 4) as u8, 0, 0, 0, 0, 0, 0, 0], [0; 3]), tail()])
        }),
        Space::new("refused_offsets", "refused incompatible bits (every byte 0 with an unknown bit; every other single bit) with and without the known one x 12 offsets x slot: the rest of the log is read as if the message were not there", (254 + 112) * 12 * 3, move |mut i| {
            let o = [1u64, 16, 17, 56, 59, 60, 61, 80, 95, 100, 120, 1 << 33][digit(&mut i, 12) as usize];
            let s = digit(&mut i, 3) as usize;
            let mut x = [0u8; 8];
            if i < 254 {
                x[0] = i as u8 + 2;
            } else {
                i -= 254;
                x[1 + (i / 16) as usize] = 1 << (i / 2 % 8);
                x[0] = (i % 2) as u8;
            }
            let mut of = [0; 3];
            of[s] = o;
            cat(&[header(), flags([0; 8], x, of), tail(), data(1, &fill(8))])
        }),
        Space::new("long", "flag-bits messages with extra trailing bytes", t.pick(64, 400), move |i| {
            let mut f = flags([1; 8], [(i % 3) as u8, 0, 0, 0, 0, 0, 0, (i % 5 == 4) as u8], [0; 3])[3..].to_vec();
            f.extend(fill((i / 3) as usize));
            cat(&[header(), msg(b'B', &f), tail()])
        }),
    ]
}
fn c11(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    against_model(b, &Cfg::all(), ctx)?;
    // derived predicates
    let ms = messages(b, &Cfg::all()).map_err(|p| Fail::new(format!("panic: {p}"), hex(b)))?;
    for m in ms.iter().flatten() {
        if let yule_log::model::msg::UlogMessage::FlagBits(f) = m {
            if f.has_data_appended() != (f.incompat_flags[0] & 1 == 1) || f.has_default_parameters() != (f.compat_flags[0] & 1 == 1) {
                return Err(Fail::new(format!("predicates of {f:?} are {} {}", f.has_data_appended(), f.has_default_parameters()), hex(b)));
            }
        }
    }
    Ok(())
}

// ---------- C13 ----------
/// After each item the reader has given out exactly the bytes up to the end of that message.
fn c13_consume(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    for cfg in [Cfg::all(), Cfg::default(), Cfg::all().allow(&["m", "a"])] {
        let e = rm::expect(b, &cfg);
        let pos = Rc::new(Cell::new(0));
        let r = Counting { data: b, pos: pos.clone() };
        let res = guard(|| {
            let mut p = parser(r, &cfg);
            if pos.get() != 0 {
                return Err(format!("{} bytes taken before the first item was asked for", pos.get()));
            }
            for (i, end) in e.ends.iter().enumerate() {
                if p.next().is_none() {
                    return Err(format!("iteration ends before item {i}"));
                }
                if pos.get() != *end {
                    return Err(format!("item {i} yielded after taking {} bytes; its message ends at {end}", pos.get()));
                }
            }
            Ok(())
        });
        ctx.execs += 1;
        ctx.transitions += e.ends.len() as u64;
        ctx.states.extend(e.states.iter());
        match res {
            Ok(Ok(())) => {}
            Ok(Err(w)) => return Err(Fail::new(w, hex(b))),
            Err(p) => return Err(Fail::new(format!("panic: {p}"), hex(b))),
        }
    }
    Ok(())
}
/// Live heap while a body of messages repeats: the same at the end of every round, from the second one on.
fn c13_growth(body: Vec<u8>, rounds: usize, cfg: Cfg, ctx: &mut Ctx) -> Result<(), Fail> {
    let head = cat(&[header(), fmt("m:uint64_t timestamp;uint8_t a;"), fmt("w:m x;uint64_t timestamp;"), sub(0, 1, "m"), sub(1, 2, "w")]);
    let per = {
        let mut n = 0;
        let mut o = 0;
        while o < body.len() {
            o += 3 + u16::from_le_bytes([body[o], body[o + 1]]) as usize;
            n += 1;
        }
        n
    };
    let what = format!("body {} repeated {rounds} times, options {cfg:?}", clip(&hex(&body), 1500));
    let head_items = 4 + cfg.hdr as usize;
    let r = Endless { head, body, pos: 0 };
    let mut live = Vec::with_capacity(rounds);
    let res = guard(|| {
        let mut p = parser(r, &cfg);
        for _ in 0..head_items {
            p.next();
        }
        for _ in 0..rounds {
            for _ in 0..per {
                p.next();
            }
            live.push(crate::alloc::live());
        }
    });
    ctx.execs += 1;
    ctx.transitions += (rounds * per) as u64;
    ctx.state(&what);
    ctx.outcome(&(live.last().copied().unwrap_or(0) - live[0]));
    if let Err(p) = res {
        return Err(Fail::new(format!("panic: {p}"), what));
    }
    // a table may still be resized in the first rounds; after that nothing may be added
    let settled = live[rounds / 4];
    if live[rounds - 1] > settled + 64 {
        return Err(Fail::new(format!("live heap grows from {settled} (round {}) to {} (round {rounds})", rounds / 4, live[rounds - 1]), what));
    }
    Ok(())
}
fn c13_fams(t: Tier) -> Vec<Family> {
    let mut f = over(
        vec![
            Space::list("omnibus", "one log with every message kind; nine small logs", std::iter::once(omnibus()).chain(small()).collect()),
            pick(t, &["kinds"]).remove(0),
            pick(t, &["sizes"]).remove(0),
            pick(t, &["nesting"]).remove(0),
            super::c_hist::words_space(t.pick(3, 4)),
        ],
        c13_consume,
    );
    // every single letter, and pairs and triples of letters, repeated
    let letters: Vec<(&str, Vec<u8>)> = vec![
        ("D", data(1, &fill(9))),
        ("D2", data(2, &fill(17))),
        ("Dbad", data(9, &fill(9))),
        ("Dshort", data(1, &fill(3))),
        ("L", log(b'6', 1, b"some text that is logged")),
        ("C", tlog(b'6', 1, 1, b"tagged")),
        ("I", info("char[4] sys_name", b"PX4!")),
        ("M", multi_info(1, "char[4] perf", b"abcd")),
        ("P", param("int32_t A", &[1, 2, 3, 4])),
        ("Q", def_param(1, "int32_t A", &[1, 2, 3, 4])),
        ("O", dropout(1)),
        ("S", sync()),
        ("Z", msg(b'Z', &fill(100))),
        ("R2", unsub(2)),
        ("A2", sub(1, 2, "w")),
        ("A1", sub(0, 1, "m")),
        ("F", fmt("x:uint8_t a;")),
        ("Abad", sub(0, 1, "nosuch")),
        ("Rbad", unsub(77)),
        ("B", flags([0; 8], [0; 8], [0; 3])),
        ("Lbad", log(b'9', 1, b"x")),
    ];
    let k = letters.len() as u64;
    let d = t.pick(2u32, 3);
    let rounds = t.pick(200, 400);
    let l2 = letters.clone();
    f.push(Family::new(
        "growth",
        "live heap over repetitions of every sequence of 2 (thorough: 3) message kinds x 3 option sets",
        k.pow(d) * 3,
        move |mut i, ctx| {
            let cfg = match digit(&mut i, 3) {
                0 => Cfg::default(),
                1 => Cfg::all(),
                _ => Cfg::all().allow(&["w"]),
            };
            let mut body = vec![];
            for _ in 0..d {
                body.extend_from_slice(&letters[digit(&mut i, k) as usize].1);
            }
            c13_growth(body, rounds, cfg, ctx)
        },
        move |i| (0..d).map(|j| l2[((i / 3) / k.pow(j) % k) as usize].0).collect::<Vec<_>>().join(" "),
    ));
    // messages with ever-changing contents (nothing may be remembered per value)
    type Make = fn(u64) -> Vec<u8>;
    let kinds: Vec<(&'static str, Make)> = vec![
        ("D m", |r| data(1, &[&r.to_le_bytes()[..], &[r as u8]].concat())),
        ("D w inst 1", |r| data(2, &[&r.to_le_bytes()[..], &[1], &(!r).to_le_bytes()].concat())),
        ("D t", |r| data(3, &[&r.to_le_bytes()[..], format!("{r:08}").as_bytes(), &(r as f32).to_le_bytes(), &[1; 4]].concat())),
        ("D m inst 2", |r| data(4, &[&(r * 3).to_le_bytes()[..], &[r as u8]].concat())),
        ("D unknown id", |r| data(100 + r as u16, &[0; 9])),
        ("D misfit", |r| data(1, &fill_from(8 - (r % 7) as usize, r as u8))),
        ("D trailing", |r| data(1, &[&r.to_le_bytes()[..], &r.to_le_bytes()[..]].concat())),
        ("L", |r| log(b'0' + (r % 8) as u8, r, format!("{r:08}").as_bytes())),
        ("L bad", |r| log(b'6', r, &[&(r as u32).to_le_bytes()[..], &[0xff]].concat())),
        ("C", |r| tlog(b'6', r as u16, r, format!("{r:08}").as_bytes())),
        ("I", |r| info(&format!("char[8] k{r:08}"), format!("{r:08}").as_bytes())),
        ("M", |r| multi_info((r % 2) as u8, &format!("char[8] k{r:08}"), format!("{r:08}").as_bytes())),
        ("M same key", |r| multi_info(1, "char[8] k", format!("{r:08}").as_bytes())),
        ("P", |r| param(&format!("int32_t P{r:08}"), &(r as u32).to_le_bytes())),
        ("P same", |r| param("int32_t P", &(r as u32).to_le_bytes())),
        ("Q", |r| def_param(1 + (r % 3) as u8, &format!("float P{r:08}"), &(r as u32).to_le_bytes())),
        ("O", |r| dropout(r as u16)),
        ("Z", |r| msg(b'Z', &r.to_le_bytes())),
        ("other type", |r| msg(128 + (r % 128) as u8, &r.to_le_bytes())),
        ("F late", |r| fmt(&format!("late{r:08}:uint8_t a;"))),
        ("A bad", |r| sub(0, 200 + r as u16, &format!("nosuch{r:08}"))),
        ("R none", |r| unsub(200 + r as u16)),
        ("A again", |r| sub((r % 2) as u8, 4, if r % 3 == 0 { "w" } else { "m" })),
        ("B", |r| flags(r.to_le_bytes(), [0; 8], [0; 3])),
        // lengths that never repeat (in quick), the longest first: room for the longest message may be kept
        ("D m length", |r| data(1, &fill(9 + 2047 - r as usize % 2048))),
        ("L length", |r| log(b'6', 1, &vec![b'x'; 2047 - r as usize % 2048])),
        ("Z length", |r| msg(b'Z', &fill(2047 - r as usize % 2048))),
    ];
    let k = kinds.len() as u64;
    let k2 = kinds.clone();
    let rounds = t.pick(2048u64, 8192);
    f.push(Family::new(
        "growth_distinct",
        "live heap over messages whose contents never repeat: every ordered pair of kinds x 3 option sets",
        k * k * 3,
        move |mut i, ctx| {
            let cfg = match digit(&mut i, 3) {
                0 => Cfg::default(),
                1 => Cfg::all(),
                _ => Cfg::all().allow(&["w"]),
            };
            let (x, y) = (digit(&mut i, k) as usize, i as usize);
            let what = format!("{} and {}, {cfg:?}", kinds[x].0, kinds[y].0);
            let head = cat(&[
                header(),
                fmt("m:uint64_t timestamp;uint8_t a;"),
                fmt("w:m x;uint64_t timestamp;"),
                fmt("t:uint64_t timestamp;char[8] s;float f;m2 q;"),
                fmt("m2:uint8_t[4] v;"),
                sub(0, 1, "m"),
                sub(1, 2, "w"),
                sub(0, 3, "t"),
                sub(2, 4, "m"),
            ]);
            let mut log = head;
            for r in 0..rounds {
                log.extend((kinds[x].1)(r));
                log.extend((kinds[y].1)(r));
            }
            let res = guard(|| {
                let mut p = parser(&log[..], &cfg);
                // anything kept of every message at least doubles from here on
                for _ in 0..8 + cfg.hdr as u64 + rounds / 2 {
                    p.next();
                }
                let a = crate::alloc::live();
                for _ in rounds / 2..2 * rounds {
                    p.next();
                }
                crate::alloc::live() - a
            });
            ctx.execs += 1;
            ctx.transitions += 2 * rounds;
            ctx.state(&(77u8, &what));
            match res {
                Ok(d) if d <= 64 => Ok(()),
                Ok(d) => Err(Fail::new(format!("live heap grew by {d} bytes over {} messages", 3 * rounds / 2), what)),
                Err(p) => Err(Fail::new(format!("panic: {p}"), what)),
            }
        },
        move |i| format!("{} and {}", k2[((i / 3) % k) as usize].0, k2[(i / 3 / k) as usize].0),
    ));
    f
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C05",
            level: "fault_enumeration",
            rule: "distinct_nontrivial = distinct reader-model states at a cut; every cut of every log is executed on the real parser and compared with the model of the truncated log",
            assumptions: vec!["a cut inside the 3-byte length/type prefix may end quietly or with an error".into()],
            families: c05_fams,
        },
        Check {
            id: "C06",
            level: "fault_enumeration",
            rule: "distinct_nontrivial = distinct environment schedules (short reads, interruptions); each is executed on the real parser and all items compared with one-piece reading",
            assumptions: vec!["at most two deviations from full reads per schedule on long logs; all compositions on short ones".into()],
            families: c06_fams,
        },
        Check {
            id: "C07",
            level: "fault_enumeration",
            rule: "distinct_nontrivial = distinct (log, byte, kind, repetition) failures; each is injected into the real parser's reader",
            assumptions: vec!["io::ErrorKind::UnexpectedEof and Interrupted are not failures in the sense of this property".into()],
            families: c07_fams,
        },
        Check {
            id: "C10",
            level: "model_checking",
            rule: "states = distinct reader-model states; every offset position is executed on the real parser and compared with the model",
            assumptions: vec!["offsets are ascending, as the format requires".into()],
            families: |t| {
                let mut f = over(appended(t), c10);
                f.push(beyond_4g(t));
                let sp = appended(t);
                for (k, s) in sp.into_iter().enumerate() {
                    if k != 1 || t == Tier::Thorough {
                        let name = format!("{}-chunked", s.name);
                        f.push(split_reads(&name, s, Tier::Quick));
                    }
                }
                f
            },
        },
        Check {
            id: "C11",
            level: "model_checking",
            rule: "states = distinct reader-model states; every flag pattern is executed on the real parser and compared with the model",
            assumptions: vec!["patterns of more than two unknown bits behave like those of one or two".into()],
            families: |t| over(c11_spaces(t), c11),
        },
        Check {
            id: "C13",
            level: "model_checking",
            rule: "states = distinct reader-model states (consumption) and distinct repeated bodies (growth); consumption and live heap are measured on the real parser",
            assumptions: vec!["growth is measured with a counting allocator over 200-400 repetitions".into()],
            families: c13_fams,
        },
    ]
}
