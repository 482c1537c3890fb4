//! Derived streams over readers that split, are interrupted or fail, over hostile logs, and while a log is still
//! being written: the parts of C05-C08 and C13 that concern derived streams (C16 runs them too).
use crate::drive::against;
use crate::progs;
use crate::rt::*;
use mc::checks::c_hist::{alphabet, build, L};
use mc::corpus::{digit, fill_from, omnibus};
use mc::engine::*;
use mc::readers::*;
use mc::wire::*;
use std::cell::Cell;
use std::io::{ErrorKind, Read};
use std::rc::Rc;
use std::sync::Arc;

/// Logs whose messages the programs of C16 map: ids reused, instances, errors, other kinds, a cut tail, big messages.
pub fn logs() -> Vec<&'static [u8]> {
    let f = alphabet();
    let r = |n: &'static str, b: Vec<u8>| L::Raw(n, b);
    let ls = vec![
        r("s", sub(0, 1, "a")),
        L::Data(1),
        r("s", sub(1, 1, "a")),
        L::Data(1),
        r("s", sub(1, 2, "b")),
        L::Data(2),
        L::Short(2),
        r("s", sub(0, 2, "ab")),
        L::Data(2),
        r("i", info("char[2] k", b"hi")),
        r("u", unsub(1)),
        L::Data(1),
        r("s", sub(0, 257, "a")),
        L::Data(257),
        r("c", tlog(b'5', 3, 10, b"tagged")),
        r("s", sub(2, 1, "zz")),
        r("l", log(b'9', 1, b"bad level")),
        r("s", sync()),
        L::Data(257),
        L::Data(2),
    ];
    let w: Vec<usize> = (0..ls.len()).collect();
    let mut v = vec![];
    for v2 in 0..2 {
        v.push(build(&ls, &w, &[f[v2].clone(), f[2].clone(), f[3].clone()]));
    }
    let mut cut = v[0].clone();
    cut.truncate(cut.len() - 5);
    v.push(cut);
    // data messages with more bytes than any buffer
    v.push(cat(&[header(), fmt("a:uint64_t timestamp;uint8_t v;uint8_t[5000] more;"), fmt("b:uint8_t[9000] z;a x;uint64_t timestamp;"), sub(0, 1, "a"), sub(1, 2, "b"), data(1, &fill_from(5009, 1)), data(2, &fill_from(14017, 2)), data(1, &fill_from(5009, 3)), sync()]));
    v.into_iter().map(|b| &*b.leak()).collect()
}
pub fn items(p: &Prog, rd: Box<dyn Read>, ops: Option<&[Op]>, len: usize) -> Vec<DObs> {
    let mut out = vec![];
    let r = guard(|| match (p.f)(rd, ops) {
        Ok(it) => drive(it, len, &mut out),
        Err(r) => out.push(DObs::Panic(format!("no stream: {r:?}"))),
    });
    if let Err(e) = r {
        out.push(DObs::Panic(e));
    }
    out
}
fn slice(p: &Prog, b: &'static [u8]) -> Vec<DObs> {
    items(p, Box::new(b), None, b.len())
}
fn differ(got: &[DObs], want: &[DObs]) -> String {
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    clip(&format!("item {i} is {:?} instead of {:?}", got.get(i), want.get(i)), 1500)
}
fn names(ps: &[Prog]) -> Vec<&'static str> {
    ps.iter().map(|p| p.name).collect()
}

/// Short reads and interruptions.
pub fn chunks(t: Tier) -> Vec<Family> {
    let ps = Arc::new(progs::c16());
    let ls = Arc::new(logs());
    let maxes = [1usize, 2, 3, 5, 16, 64, 4095, 4096, 8192, usize::MAX];
    let (np, nl, nm) = (ps.len() as u64, ls.len() as u64, maxes.len() as u64);
    let (p1, l1) = (ps.clone(), ls.clone());
    let mut v = vec![Family::new(
        "derived-uniform",
        &format!("derived streams {:?} over {nl} logs read in pieces of at most {maxes:?} bytes with 0..=3 interruptions before each, against one-piece reading", names(&ps)),
        np * nl * nm * 4,
        move |mut i, ctx| {
            let p = &p1[digit(&mut i, np) as usize];
            let b = l1[digit(&mut i, nl) as usize];
            let m = maxes[digit(&mut i, nm) as usize];
            let mut r = Chunked::new(b);
            r.max = m;
            r.every = i as u32;
            let steps = r.steps.clone();
            let got = items(p, Box::new(r), None, b.len());
            let want = slice(p, b);
            ctx.execs += 2;
            ctx.transitions += steps.get();
            ctx.state(&(p.name, hash(&b), m, i));
            ctx.outcome(&got);
            if got != want {
                return Err(Fail::new(differ(&got, &want), format!("program {} pieces of {m}, {i} interruptions before each, log {}", p.name, hex(b))));
            }
            Ok(())
        },
        |i| format!("case {i}"),
    )];
    let calls = t.pick(40u64, 120);
    let nd = DEVS.len() as u64;
    let b = ls[3];
    v.push(Family::new(
        "derived-calls",
        &format!("derived streams {:?} over large messages: every deviation (interruption, one byte, half, all but one) at each of the first {calls} reads, limited to 4096 bytes or not", names(&ps)),
        np * calls * nd * 2,
        move |mut i, ctx| {
            let p = &ps[digit(&mut i, np) as usize];
            let d = DEVS[digit(&mut i, nd) as usize];
            let m = [usize::MAX, 4096][digit(&mut i, 2) as usize];
            let mut r = Chunked::new(b);
            r.max = m;
            r.calls = vec![(i, d)];
            let steps = r.steps.clone();
            let got = items(p, Box::new(r), None, b.len());
            let want = slice(p, b);
            ctx.execs += 2;
            ctx.transitions += steps.get();
            ctx.state(&(p.name, m, i, d));
            ctx.outcome(&got);
            if got != want {
                return Err(Fail::new(differ(&got, &want), format!("program {} call {i} {d:?} pieces of {m}, log of large messages", p.name)));
            }
            Ok(())
        },
        |i| format!("case {i}"),
    ));
    v
}

/// Reader failures: the items before, one error, no item after it.
pub fn failures(t: Tier) -> Vec<Family> {
    let ps = Arc::new(progs::c16());
    let kinds: Vec<ErrorKind> = t.pick(vec![ErrorKind::Other, ErrorKind::TimedOut, ErrorKind::ConnectionAborted, ErrorKind::WouldBlock], KINDS.to_vec());
    let b = logs()[0];
    let (fr, _) = mc::refmodel::frames(b);
    let n = fr.len();
    let bounds: Vec<usize> = {
        // offsets at which a message is complete
        let mut v: Vec<usize> = fr.iter().map(|f| f.0).collect();
        v.push(b.len());
        v
    };
    assert!(n > 20 && bounds[0] == 16, "{bounds:?}");
    let (np, nk) = (ps.len() as u64, kinds.len() as u64);
    vec![Family::new(
        "derived-failures",
        &format!("derived streams {:?}: failure at every byte with {kinds:?}, once, twice and for ever", names(&ps)),
        np * nk * 3 * (b.len() as u64 + 1),
        move |mut i, ctx| {
            let p = &ps[digit(&mut i, np) as usize];
            let kind = kinds[digit(&mut i, nk) as usize];
            let times = [1, 2, u32::MAX][digit(&mut i, 3) as usize];
            let at = i as usize;
            let failed = Rc::new(Cell::new(0));
            let got = items(p, Box::new(Failing { data: b, pos: 0, at, kind, times, failed: failed.clone() }), None, b.len());
            let done = bounds.iter().rev().find(|e| **e <= at).copied().unwrap_or(0);
            let before = if done == 0 { vec![] } else { slice(p, &b[..done]) };
            ctx.execs += 2;
            ctx.transitions += got.len() as u64;
            ctx.state(&(p.name, at, format!("{kind:?}"), times));
            ctx.outcome(&got);
            let what = || format!("program {} failing at byte {at} with {kind:?} x{times}, log {}", p.name, hex(b));
            if failed.get() == 0 {
                return Err(Fail::new("the stream never asked for the failing byte", what()));
            }
            if got.len() < before.len() || got[..before.len()] != before[..] {
                return Err(Fail::new(differ(&got, &before), what()));
            }
            if !matches!(got.get(before.len()), Some(DObs::Err(Kind::Io(k), what)) if *k == kind && what.contains("injected")) {
                return Err(Fail::new(format!("the failure is not reported: {:?}", got.get(before.len())), what()));
            }
            match got[before.len() + 1..].iter().find(|x| !matches!(x, DObs::Err(..))) {
                None => Ok(()),
                Some(x) => Err(Fail::new(format!("after the failure: {x:?}"), what())),
            }
        },
        |i| format!("case {i}"),
    )]
}

/// Truncation at every byte, also of a log that has grown when the stream asks again.
pub fn cuts() -> Vec<Family> {
    let ps = Arc::new(progs::c16());
    let ls = logs();
    let np = ps.len() as u64;
    let idx: Vec<(usize, usize)> = ls[..2].iter().enumerate().flat_map(|(k, b)| (0..b.len()).map(move |c| (k, c))).collect();
    let n = idx.len() as u64;
    vec![Family::new(
        "derived-cuts",
        &format!("derived streams {:?} over every prefix of two logs, against the model; the same when the reader has the rest later", names(&ps)),
        np * n,
        move |mut i, ctx| {
            let p = &ps[digit(&mut i, np) as usize];
            let (k, c) = idx[i as usize];
            against(p, &ls[k][..c], None, ctx)?;
            let b = ls[k];
            let want = slice(p, &b[..c]);
            for times in [1, 2, 3] {
                let got = items(p, Box::new(Growing { data: b, pos: 0, at: c, times, max: usize::MAX }), None, b.len());
                ctx.execs += 1;
                ctx.outcome(&got);
                // (nothing but errors and the end may follow an incomplete header)
                let bad = if c < 16 { got.iter().any(|x| !matches!(x, DObs::Err(..))) } else { got != want };
                if bad {
                    return Err(Fail::new(differ(&got, &want), format!("program {} at its end {times} times at byte {c}, log {}", p.name, hex(b))));
                }
            }
            Ok(())
        },
        |i| format!("case {i}"),
    )]
}

/// A log with nested structures, padding and arrays for the programs of C18, and one for those of C16.
fn rich() -> Vec<(Vec<Prog>, Vec<u8>)> {
    let c18: Vec<Prog> = progs::c18();
    let deep = cat(&[
        header(),
        fmt("n:uint16_t na;uint8_t nb;"),
        fmt("mid:uint8_t d;n n;n[2] ns;"),
        fmt("em:"),
        fmt("t:uint64_t timestamp;uint16_t fa;uint32_t fb;uint8_t renamed_c;n nf;mid[2] mids;mid mid;uint16_t volt;uint8_t[2] _padding0;"),
        sub(0, 1, "t"),
        data(1, &fill_from(71, 1)),
        data(1, &fill_from(58, 0x50)),
        unsub(1),
    ]);
    vec![(progs::c16(), logs()[0].to_vec()), (c18, deep)]
}
/// Every change, deletion and insertion of one byte.
pub fn hostile(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    for (k, (ps, b)) in rich().into_iter().enumerate() {
        let k = k + 1;
        let vals: Vec<u8> = t.pick(vec![0, 1, 2, 3, 4, 7, 8, b'0', b'9', b':', b';', b'[', b']', b' ', b'a', b'b', b'n', b't', b'_', 0x7f, 0x80, 0xff], (0..=255).collect());
        let (np, nv, n) = (ps.len() as u64, vals.len() as u64, b.len() as u64);
        let b = Arc::new(b);
        let b2 = b.clone();
        let edit = move |i: u64, what: u64, val: u8| {
            let mut x = b2.to_vec();
            let at = i as usize;
            match what {
                0 => x[at] = val,
                1 => x.insert(at, val),
                _ => {
                    x.remove(at);
                }
            }
            x
        };
        v.push(Family::new(
            &format!("derived-bytes{k}"),
            &format!("derived streams {:?} over a log with every single byte changed to, or preceded by, each of {nv} values, or removed: no panic, and the model's items", names(&ps)),
            np * nv * 3 * n,
            move |mut i, ctx| {
                let p = &ps[digit(&mut i, np) as usize];
                let k = digit(&mut i, nv) as usize;
                let what = digit(&mut i, 3);
                if what == 2 && k > 0 {
                    ctx.skipped += 1;
                    return Ok(());
                }
                against(p, &edit(i, what, vals[k]), None, ctx)
            },
            |i| format!("case {i}"),
        ));
    }
    v
}

/// Each item is yielded when exactly the bytes up to the end of its message were taken.
pub fn live(_t: Tier) -> Vec<Family> {
    let ps = Arc::new(progs::c16());
    let mut ls = logs();
    ls.push(omnibus().leak());
    let (np, nl) = (ps.len() as u64, ls.len() as u64);
    let fwd = vec![None, Some(vec![Op::Fwd(true)])];
    let p2 = ps.clone();
    let mut v = vec![Family::new(
        "derived-live",
        &format!("derived streams {:?} over {nl} logs: the bytes taken when each item is yielded end exactly at its message (the log cut there yields the item, cut one message earlier it does not)", names(&ps)),
        np * nl * 2,
        move |mut i, ctx| {
            let p = &p2[digit(&mut i, np) as usize];
            let b: &'static [u8] = ls[digit(&mut i, nl) as usize];
            let ops = fwd[i as usize].as_deref();
            if ops.is_some() && !p.spec.forward {
                ctx.skipped += 1;
                return Ok(());
            }
            let what = || format!("program {} builder calls {ops:?} log {}", p.name, hex(b));
            let pos = Rc::new(Cell::new(0));
            let r = Counting { data: b, pos: pos.clone() };
            let mut at = vec![];
            let res = guard(|| {
                let Ok(it) = (p.f)(Box::new(r), ops) else { return Some(usize::MAX) };
                let early = pos.get();
                for _ in it {
                    at.push(pos.get());
                }
                Some(early).filter(|e| *e > 0)
            });
            match res {
                Ok(None) => {}
                Ok(Some(n)) => return Err(Fail::new(format!("{n} bytes taken before the first item was asked for"), what())),
                Err(e) => return Err(Fail::new(format!("panic: {e}"), what())),
            }
            let (fr, stop) = mc::refmodel::frames(b);
            let mut ends: Vec<usize> = fr.iter().map(|f| f.0).chain([stop, b.len()]).collect();
            ends.dedup();
            ctx.execs += 1;
            ctx.transitions += at.len() as u64;
            for (k, x) in at.iter().enumerate() {
                ctx.state(&(p.name, hash(&b), k, i));
                let Some(e) = ends.iter().position(|e| e == x) else {
                    return Err(Fail::new(format!("item {k} was yielded after {x} bytes, which is inside a message"), what()));
                };
                let count = |n: usize| items(p, Box::new(&b[..n]), ops, b.len()).len();
                let (here, before) = (count(*x), if e == 0 { 0 } else { count(ends[e - 1]) });
                ctx.execs += 2;
                // the last item of a log may be the error of a cut message
                if here <= k || (before > k && *x < b.len()) {
                    return Err(Fail::new(format!("item {k} was yielded after {x} bytes; the log cut there has {here} items, cut one message earlier {before}"), what()));
                }
            }
            Ok(())
        },
        |i| format!("case {i}"),
    )];
    // live heap over repetitions of bodies with subscriptions and data
    let bodies: Vec<Vec<u8>> = {
        let letters = [sub(0, 1, "a"), sub(1, 1, "a"), sub(1, 2, "b"), data(1, &fill_from(9, 1)), data(2, &fill_from(19, 1)), unsub(1), data(1, &[1]), log(b'6', 1, b"text"), sub(0, 9, "zz"), sync()];
        let n = letters.len();
        (0..n * n).map(|k| cat(&[letters[k / n].clone(), letters[k % n].clone()])).collect()
    };
    let nb = bodies.len() as u64;
    v.push(Family::new(
        "derived-growth",
        &format!("derived streams {:?}: live heap over repetitions of every pair of 10 messages", names(&ps)),
        np * nb,
        move |mut i, ctx| {
            let p = &ps[digit(&mut i, np) as usize];
            let body = bodies[i as usize].clone();
            let head = cat(&[header(), fmt("a:uint64_t timestamp;uint8_t v;"), fmt("b:a x;uint64_t timestamp;uint8_t[2] _padding0;"), sub(0, 1, "a"), sub(1, 2, "b")]);
            let rounds = 400;
            let mut log = head;
            for _ in 0..rounds {
                log.extend_from_slice(&body);
            }
            let what = format!("program {} body {} repeated {rounds} times", p.name, hex(&body));
            let pos = Rc::new(Cell::new(0));
            let data: &'static [u8] = log.leak();
            let r = Counting { data, pos: pos.clone() };
            let (mut early, mut late) = (0, 0);
            let res = guard(|| {
                let Ok(it) = (p.f)(Box::new(r), None) else { return };
                for x in it {
                    drop(x);
                    let l = mc::alloc::live();
                    if pos.get() < data.len() / 3 {
                        early = l;
                    }
                    late = l;
                }
            });
            ctx.execs += 1;
            ctx.transitions += 2 * rounds;
            ctx.state(&(p.name, i, "growth"));
            if let Err(e) = res {
                return Err(Fail::new(format!("panic: {e}"), what));
            }
            if early != 0 && late > early + 64 {
                return Err(Fail::new(format!("live heap grows from {early} to {late}"), what));
            }
            Ok(())
        },
        |i| format!("case {i}"),
    ));
    v
}
