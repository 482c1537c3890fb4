//! C16 dispatch, C17 conversions, C18 lookup by name, C19 builder settings.
use crate::drive::{against, one_log};
use crate::env;
use crate::progs;
use crate::rt::*;
use mc::checks::c_hist::{alphabet, build, transitions, L};
use mc::corpus::{digit, fill_from, Space};
use mc::engine::*;
use mc::obs::*;
use mc::wire::*;
use std::sync::Arc;

fn family(name: &str, what: &str, progs: Vec<Prog>, modes: Vec<Option<Vec<Op>>>, s: Space) -> Family {
    let (np, nm) = (progs.len() as u64, modes.len() as u64);
    let g = s.gen.clone();
    let (p2, m2) = (progs.clone(), modes.clone());
    let names: Vec<&str> = progs.iter().map(|p| p.name).collect();
    Family::new(
        name,
        &format!("{what}: programs {names:?} x {nm} builder settings x {}", s.what),
        np * nm * s.count,
        move |mut i, ctx| {
            let p = &progs[digit(&mut i, np) as usize];
            let m = &modes[digit(&mut i, nm) as usize];
            against(p, &g(i), m.as_deref(), ctx)
        },
        move |mut i| {
            let p = digit(&mut i, np) as usize;
            let m = digit(&mut i, nm) as usize;
            format!("program {} builder {:?} log {}", p2[p].name, m2[m], hex(&(s.gen)(i)))
        },
    )
}
fn modes() -> Vec<Option<Vec<Op>>> {
    vec![None, Some(vec![]), Some(vec![Op::Fwd(true)]), Some(vec![Op::Extend(vec!["b".into(), "ab".into()]), Op::Fwd(true)])]
}
fn split(ps: Vec<Prog>) -> (Vec<Prog>, Vec<Prog>) {
    ps.into_iter().partition(|p| p.spec.forward)
}
fn raw(n: &'static str, b: Vec<u8>) -> L {
    L::Raw(n, b)
}
fn letters() -> Vec<L> {
    vec![
        raw("A(0,1,a)", sub(0, 1, "a")),
        raw("A(1,1,a)", sub(1, 1, "a")),
        raw("A(1,2,a)", sub(1, 2, "a")),
        raw("A(0,1,b)", sub(0, 1, "b")),
        raw("A(1,2,b)", sub(1, 2, "b")),
        raw("A(0,2,ab)", sub(0, 2, "ab")),
        raw("A(0,257,a)", sub(0, 257, "a")),
        raw("A(2,1,undefined)", sub(2, 1, "zz")),
        raw("R(1)", unsub(1)),
        L::Data(1),
        L::Data(2),
        L::Data(257),
        L::Short(1),
        raw("I", info("char[2] k", b"hi")),
        raw("S", sync()),
        raw("C", tlog(b'5', 3, 10, b"tagged")),
    ]
}
pub fn words(d: usize, v2: bool) -> Space {
    let a = letters();
    let k = a.len() as u64;
    let f = alphabet();
    let prefix = vec![f[usize::from(v2)].clone(), f[2].clone(), f[3].clone()];
    Space::new(
        "words",
        format!("formats a v{}, b, ab, then every sequence of {d} messages over {k} letters (subscriptions and data of colliding ids, names and instances, and other kinds)", 1 + v2 as u8),
        k.pow(d as u32),
        move |mut i| {
            let w: Vec<usize> = (0..d).map(|_| digit(&mut i, k) as usize).collect();
            build(&a, &w, &prefix)
        },
    )
}
pub fn c16(t: Tier) -> Vec<Family> {
    let (f, n) = split(progs::c16());
    let plain = || vec![None, Some(vec![])];
    let d = t.pick(4, 5);
    let mut v = vec![];
    for v2 in [false, true] {
        let k = if v2 { "-v2" } else { "" };
        v.push(family(&format!("words{k}"), "short histories", f.clone(), modes(), words(d, v2)));
        v.push(family(&format!("words-noother{k}"), "short histories", n.clone(), plain(), words(d, v2)));
    }
    // every transition of the reader model, formats included, ended by probes of every id
    let full = alphabet();
    let probes = vec![L::Data(1), L::Data(2), L::Data(257)];
    let tr: Vec<L> = [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 10, 11].iter().map(|i| full[*i].clone()).collect();
    let s = transitions("transitions", tr, probes, t.pick(3000, 60000));
    v.push(family("transitions", "transition cover", f.clone(), modes(), clone_space(&s)));
    v.push(family("transitions-noother", "transition cover", n.clone(), plain(), s));
    // instances
    v.push(instances(f.clone(), t));
    v.push(instances(n.clone(), t));
    // one name under several ids
    let sh = mc::checks::c_hist::sharers();
    let (every, g) = (t.pick(17u64, 3), sh.gen.clone());
    let s = Space::new("sharers", format!("{} (every {every}th)", sh.what), sh.count / every, move |i| g(i * every));
    v.push(family("sharers", "shared names", f.clone(), modes(), clone_space(&s)));
    v.push(family("sharers-noother", "shared names", n.clone(), plain(), s));
    // names and instances that nearly coincide
    let sh = near_maps();
    v.push(family("near", "names that nearly coincide", f.clone(), modes(), clone_space(&sh)));
    v.push(family("near-noother", "names that nearly coincide", n.clone(), plain(), sh));
    // many subscriptions in force at once
    let sh = crowds(t);
    v.push(family("crowds", "many subscriptions", f.clone(), modes(), clone_space(&sh)));
    v.push(family("crowds-noother", "many subscriptions", n.clone(), plain(), sh));
    // whole logs of the parser corpus through derived streams: other items must pass unchanged
    for s in mc::corpus::all(Tier::Quick) {
        if ["kinds", "flagbits", "headers", "omnibus", "text", "ids", "names"].contains(&s.name) {
            let name = format!("corpus-{}", s.name);
            v.push(family(&name, "messages of every kind", f[..1].to_vec(), vec![None, Some(vec![Op::Fwd(true)])], clone_space(&s)));
        }
    }
    // readers that split and fail, damaged logs, logs still being written
    v.extend(env::chunks(t));
    v.extend(env::failures(t));
    v.extend(env::hostile(t));
    v.extend(env::live(t));
    v.extend(env::cuts());
    // the error paths at the end of the input
    let om = mc::corpus::omnibus();
    let n_cut = om.len() as u64;
    let cut = Space::new("cuts", "every prefix of the omnibus log", n_cut, move |i| om[..i as usize].to_vec());
    v.push(family("cuts", "truncated logs", vec![f[0].clone(), n[0].clone()], vec![None], cut));
    v
}
/// Many subscriptions of mapped and other names in force at once.
fn crowds(t: Tier) -> Space {
    let mut sizes = mc::checks::c_hist::long_sizes(t);
    sizes.retain(|n| *n > 16 && n % 2 == 1 || *n == 65535);
    let what = format!("n subscriptions of other names before or after those of the mapped names, or n ids of the mapped names in several instances, a third of them unsubscribed and others subscribed for another name; data of all ids, n in {sizes:?}");
    Space::new("crowds", what, sizes.len() as u64 * 3, move |mut i| {
        let kind = digit(&mut i, 3);
        let n = sizes[i as usize].min(65_000);
        let mut v = header();
        for k in [0, 2, 3] {
            if let L::Raw(_, b) = &alphabet()[k] {
                v.extend(b);
            }
        }
        v.extend(fmt("other:uint64_t timestamp;"));
        // the name in force for each id
        let mut force: Vec<&str> = vec![""; 65_104];
        let mut put = |v: &mut Vec<u8>, k: u8, id: u64, name: &'static str| {
            v.extend(sub(k, id as u16, name));
            force[id as usize] = name;
        };
        let names = ["a", "b", "a", "b"];
        if kind == 1 {
            (0..4).for_each(|k| put(&mut v, k as u8 / 2, 65_100 + k, names[k as usize]));
        }
        for i in 0..n {
            let k = (i % 4) as u8;
            if kind == 2 {
                put(&mut v, k / 2, i, names[k as usize]);
            } else {
                put(&mut v, k, i, "other");
            }
        }
        if kind == 0 {
            (0..4).for_each(|k| put(&mut v, k as u8 / 2, 65_100 + k, names[k as usize]));
        }
        if kind == 2 {
            for i in (0..n).step_by(3) {
                v.extend(unsub(i as u16));
            }
            for i in (1..n).step_by(3) {
                put(&mut v, 0, i, ["b", "other"][i as usize % 2]);
            }
        }
        for i in (0..n).chain(65_100..65_104) {
            let size = match force[i as usize] {
                "a" => 9,
                "b" => 19,
                _ => 8,
            };
            v.extend(data(i as u16, &fill_from(size, i as u8)));
        }
        v
    })
}
/// Pairs of subscriptions over instances, ids and names, each followed by data for both ids.
fn instances(ps: Vec<Prog>, t: Tier) -> Family {
    let inst: Vec<u8> = t.pick(vec![0, 1, 2, 3, 63, 64, 65, 126, 127, 128, 129, 130, 192, 254, 255], (0..=255).collect());
    let ids: Vec<u16> = t.pick(vec![0, 1, 256, 65535], vec![0, 1, 2, 255, 256, 257, 512, 32767, 32768, 65535]);
    let second: Vec<(u8, u16, &'static str)> = {
        let mut v = vec![];
        for k in [0u8, 1, 64, 127, 128, 129, 255] {
            for i in &ids {
                v.push((k, *i, "a"));
            }
            v.push((k, 1, "b"));
        }
        v
    };
    let (ni, nd, n2) = (inst.len() as u64, ids.len() as u64, second.len() as u64);
    let s = Space::new(
        "instances",
        format!("subscriptions of a with each of {ni} instances on each of {nd} ids, then one of {n2} second subscriptions, data for both ids after each"),
        ni * nd * n2,
        move |mut i| {
            let k = inst[digit(&mut i, ni) as usize];
            let id = ids[digit(&mut i, nd) as usize];
            let (k2, id2, name2) = second[i as usize];
            let f = alphabet();
            let pre = [f[0].clone(), f[2].clone(), f[3].clone()];
            let ls = [L::Raw("s1", sub(k, id, "a")), L::Data(id), L::Raw("s2", sub(k2, id2, name2)), L::Data(id2), L::Data(id), L::Raw("s1", sub(k, id2, "a")), L::Data(id2)];
            build(&ls, &[0, 1, 2, 3, 4, 5, 6], &pre)
        },
    );
    let fwd = ps[0].spec.forward;
    family(if fwd { "instances" } else { "instances-noother" }, "instances", ps, if fwd { vec![None, Some(vec![Op::Fwd(true)])] } else { vec![None] }, s)
}
/// The mapped names, and names that nearly coincide with them, subscribed in every order of two under two instances.
pub fn near_maps() -> Space {
    const N: [&str; 16] = ["a", "b", "ab", "A", "B", "AB", "Ab", "aa", "a0", "a1", "a_", "_a", "a_1", "b0", "ba", "a/b"];
    let n = N.len() as u64;
    let insts = [0u8, 1, 127, 255];
    Space::new("near", format!("every ordered pair of names {N:?} under instances {insts:?}, data of both after each subscription, of one id or two"), n * n * 32, move |mut i| {
        let x = N[digit(&mut i, n) as usize];
        let y = N[digit(&mut i, n) as usize];
        let k = insts[digit(&mut i, 4) as usize];
        let l = insts[digit(&mut i, 4) as usize];
        let id2 = 1 + i as u16;
        let mut v = header();
        for n in N {
            v.extend(fmt(&format!("{n}:uint64_t timestamp;uint8_t v;int8_t w;")));
        }
        for (k, id, n) in [(k, 1, x), (l, id2, y), (k, id2, y), (l, 1, x)] {
            v.extend(sub(k, id, n));
            v.extend(data(1, &fill_from(10, 1)));
            v.extend(data(2, &fill_from(10, 7)));
        }
        v
    })
}
fn clone_space(s: &Space) -> Space {
    let g = s.gen.clone();
    Space::new(s.name, s.what.clone(), s.count, move |i| g(i))
}
/// Two derived streams stepped in every order on one thread yield what each yields alone.
fn interleave(t: Tier) -> Family {
    use mc::checks::c_global::{interleaving, multinomial};
    let ps = progs::c16();
    let logs: Vec<Vec<u8>> = {
        let f = alphabet();
        let pre = |v2: usize| [f[v2].clone(), f[2].clone(), f[3].clone()];
        let a = letters();
        vec![build(&a, &[0, 9, 3, 9], &pre(0)), build(&a, &[2, 10, 0, 9], &pre(1)), build(&a, &[4, 10, 5, 10], &pre(0))]
    };
    let alone: Vec<Vec<Vec<DObs>>> = ps
        .iter()
        .map(|p| {
            logs.iter()
                .map(|b| match p.run(b, None) {
                    Run::Items(v) => v,
                    r => vec![DObs::Panic(format!("{r:?}"))],
                })
                .collect()
        })
        .collect();
    let (np, nl) = (ps.len(), logs.len());
    let cap = t.pick(6usize, 12);
    // (program, log) twice, then the order of the first `cap` next() calls of each
    let mut rows: Vec<([usize; 4], Vec<usize>, u64)> = vec![];
    for p in 0..np {
        for q in 0..np {
            for a in 0..nl {
                for b in 0..nl {
                    let c = vec![(alone[p][a].len() + 1).min(cap), (alone[q][b].len() + 1).min(cap)];
                    let n = multinomial(&c);
                    rows.push(([p, q, a, b], c, n));
                }
            }
        }
    }
    let total = rows.iter().map(|r| r.2).sum();
    let find = move |mut i: u64| {
        for (k, c, n) in &rows {
            if i < *n {
                return (*k, interleaving(c, i));
            }
            i -= n;
        }
        unreachable!()
    };
    let find = Arc::new(find);
    let f2 = find.clone();
    Family::new(
        "derived-2",
        &format!("every interleaving of the first {cap} next() calls of two derived streams: {np} x {np} programs over {nl} x {nl} logs with colliding names and ids"),
        total,
        move |i, ctx| {
            let ([p, q, a, b], order) = find(i);
            let rd = |x: usize| Box::new(std::io::Cursor::new(logs[x].clone()));
            let want = [&alone[p][a], &alone[q][b]];
            let r = guard(|| {
                let (Ok(x), Ok(y)) = ((ps[p].f)(rd(a), None), (ps[q].f)(rd(b), None)) else { return None };
                let mut it = [x, y];
                let mut got: [Vec<DObs>; 2] = [vec![], vec![]];
                for k in &order {
                    got[*k].extend(it[*k].next());
                }
                for k in 0..2 {
                    let left = (want[k].len() + 2).saturating_sub(got[k].len());
                    got[k].extend(it[k].by_ref().take(left));
                }
                Some(got)
            });
            ctx.execs += 1;
            ctx.transitions += (want[0].len() + want[1].len()) as u64;
            ctx.state(&([p, q, a, b], &order));
            let what = || format!("programs {} and {} logs {} and {} order {order:?}", ps[p].name, ps[q].name, hex(&logs[a]), hex(&logs[b]));
            match r {
                Ok(Some(g)) if g[0] == *want[0] && g[1] == *want[1] => Ok(()),
                r => Err(Fail::new(clip(&format!("{r:?}, alone {want:?}"), 2500), what())),
            }
        },
        move |i| format!("{:?}", f2(i)),
    )
}
/// Two derived streams one after the other on one thread, over short histories, each against the model.
fn twins(t: Tier) -> Family {
    let ps = progs::c16();
    let f = alphabet();
    let ls = letters();
    let nl = t.pick(8usize, ls.len());
    let mut logs = vec![];
    for v2 in 0..2 {
        for a in 0..nl {
            for b in [0usize, 4, 9] {
                logs.push(build(&ls, &[a, 9, b, 10, 9], &[f[v2].clone(), f[2].clone(), f[3].clone()]));
            }
        }
    }
    let (np, n) = (ps.len() as u64, logs.len() as u64);
    let names: Vec<&str> = ps.iter().map(|p| p.name).collect();
    let logs = Arc::new(logs);
    Family::new(
        "derived-twins",
        &format!("every ordered pair of programs {names:?} x every ordered pair of {n} histories over the same names and ids, run one after the other on one thread"),
        np * np * n * n,
        move |mut i, ctx| {
            let p = &ps[digit(&mut i, np) as usize];
            let q = &ps[digit(&mut i, np) as usize];
            let a = &logs[digit(&mut i, n) as usize];
            let b = &logs[i as usize];
            against(p, a, None, ctx)?;
            against(q, b, None, ctx).map_err(|e| Fail::new(format!("after {} on {}: {}", p.name, hex(a), e.what), e.input))
        },
        move |i| format!("pair {i}"),
    )
}
/// The programs of C16 over a few logs, those of C18 over logs with fields missing, present or of other types.
pub fn again_jobs(t: Tier) -> Vec<(Prog, Vec<u8>)> {
    let mut jobs: Vec<(Prog, Vec<u8>)> = vec![];
    for p in progs::c16() {
        jobs.extend(env::logs().into_iter().map(|b| (p.clone(), b.to_vec())));
    }
    let fields = ["uint16_t fa", "uint32_t fb", "uint8_t renamed_c", "uint64_t fd", "int8_t fe", "uint16_t volt", "uint8_t volt_raw", "uint8_t raw_volt", "n nf", "uint8_t k0", "uint8_t k3"];
    let body = |k: u64, ty: &dyn Fn(&str) -> String| -> String { fields.iter().enumerate().filter(|(j, _)| k >> j & 1 == 1).map(|(_, f)| ty(f)).collect() };
    for p in progs::c18() {
        for k in 0..t.pick(256u64, 2048) {
            let k = if t == Tier::Quick { (k & 31) | (k & 32) << 4 | (k & 64) << 2 | (k & 128) << 3 } else { k };
            let mut defs = vec!["n:uint8_t x;".to_string(), "em:".to_string(), format!("t:uint64_t timestamp;{}", body(k, &|f| format!("{f};")))];
            jobs.push((p.clone(), one_log(&defs, "t", |n| vec![fill_from(n, 3); 2])));
            // fields there, of other types
            defs[2] = format!("t:uint64_t timestamp;{}", body(k, &|f| format!("uint8_t[9] {};", f.split(' ').nth(1).unwrap())));
            jobs.push((p.clone(), one_log(&defs, "t", |n| vec![fill_from(n, 3); 2])));
        }
    }
    jobs
}
/// A derived stream run again and again yields the same items, with the same errors to the letter.
fn repeat(t: Tier) -> Family {
    let jobs = Arc::new(again_jobs(t));
    let n = jobs.len() as u64;
    let times = t.pick(6, 12);
    let j2 = jobs.clone();
    Family::new(
        "derived-again",
        &format!("{n} pairs of program and log (the programs of C16, and those of C18 with every choice of logged fields missing, present or of other types), each run {times} times in succession"),
        n,
        move |i, ctx| {
            let (p, b) = &jobs[i as usize];
            let want = p.run(b, None);
            ctx.state(&(p.name, hash(b)));
            ctx.outcome(&want);
            for k in 1..times {
                ctx.execs += 1;
                let got = p.run(b, None);
                if got != want {
                    return Err(Fail::new(clip(&format!("run {k} yields {got:?}, the first {want:?}"), 2500), format!("program {} log {}", p.name, hex(b))));
                }
            }
            Ok(())
        },
        move |i| format!("program {} log {}", j2[i as usize].0.name, hex(&j2[i as usize].1)),
    )
}
fn c21(t: Tier) -> Vec<Family> {
    let mut v = mc::checks::c_global::c21_families(t);
    v.push(repeat(t));
    v.push(interleave(t));
    v.push(twins(t));
    v.push(crate::both::levels(t));
    v
}

// ---------------------------------------------------------------- C17

/// (definitions before, type text, size in bytes or so)
fn logged_types() -> Vec<(Vec<&'static str>, String)> {
    let mut v = vec![];
    for p in PRIMS {
        v.push((vec![], p.name().to_string()));
        for n in [0, 1, 3] {
            v.push((vec![], format!("{}[{n}]", p.name())));
        }
    }
    let ns = ["n:uint16_t na;", "n:int16_t na;", "n:uint16_t[1] na;", "n:uint16_t nx;", "n:uint8_t e;uint16_t na;uint8_t z;", "n:q na;"];
    for n in ns {
        for a in ["", "[0]", "[1]", "[2]"] {
            v.push((vec!["q:uint16_t na;", n], format!("n{a}")));
            for b in ["", "[2]"] {
                let o: &'static str = if b.is_empty() { "o:n n;" } else { "o:n[2] n;" };
                v.push((vec!["q:uint16_t na;", n, o], format!("o{a}")));
            }
        }
    }
    // a format called like the Rust types
    v.push((vec!["u8:uint8_t x;"], "u8".into()));
    v.push((vec!["N:uint16_t na;"], "N".into()));
    v.push((vec!["string:char[4] x;"], "string[1]".into()));
    v
}
type Matrix = Arc<dyn Fn(u64) -> (usize, Vec<u8>) + Send + Sync>;
fn c17_matrix(fills: Vec<u64>) -> (u64, Matrix) {
    let np = progs::c17().len() as u64;
    let lt = logged_types();
    let (nl, nf) = (lt.len() as u64, fills.len() as u64);
    let gen = move |mut i: u64| -> (usize, Vec<u8>) {
        let p = digit(&mut i, np) as usize;
        let l = &lt[digit(&mut i, nl) as usize];
        let f = fills[digit(&mut i, nf) as usize];
        let top = match i {
            0 => format!("m:uint64_t timestamp;{} f;", l.1),
            1 => format!("m:{} f;uint64_t timestamp;", l.1),
            _ => format!("m:uint8_t[3] _padding0;{} f;uint8_t g;uint64_t timestamp;", l.1),
        };
        let mut defs: Vec<String> = l.0.iter().map(|s| s.to_string()).collect();
        defs.push(top);
        let b = one_log(&defs, "m", |n| {
            vec![match f {
                256 => fill_from(n, 1),
                257 => fill_from(n, 0x55),
                258 => (0..n).map(|k| if k % 4 == 3 { 0x7f } else if k % 4 == 2 { 0xa0 } else { 1 }).collect(),
                259 => (0..n).map(|k| if k % 4 >= 2 { 0xff } else { 0 }).collect(),
                c => vec![c as u8; n],
            }]
        });
        (p, b)
    };
    (np * nl * nf * 3, Arc::new(gen))
}
/// Longer arrays of every type, read as every type.
fn c17_sizes(t: Tier) -> Family {
    let ps = Arc::new(progs::c17());
    let sizes: Vec<u64> = t.pick(vec![2, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100, 128, 255, 256, 257, 1000, 4096, 8000], (2..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 8000]).collect());
    let mut lt: Vec<(Vec<&'static str>, &'static str)> = PRIMS.iter().map(|p| (vec![], p.name())).collect();
    lt.push((vec!["n:uint16_t na;"], "n"));
    lt.push((vec!["n:uint16_t na;", "o:n n;"], "o"));
    let (np, nl, nz) = (ps.len() as u64, lt.len() as u64, sizes.len() as u64);
    let what = format!("{np} structs of the matrix x {nl} element types x arrays of each of {sizes:?} elements, with two byte fills");
    let z2 = sizes.clone();
    Family::new(
        "sizes",
        &what,
        np * nl * nz,
        move |mut i, ctx| {
            let p = digit(&mut i, np) as usize;
            let l = &lt[digit(&mut i, nl) as usize];
            let mut defs: Vec<String> = l.0.iter().map(|s| s.to_string()).collect();
            defs.push(format!("m:uint64_t timestamp;{}[{}] f;uint8_t g;", l.1, sizes[i as usize]));
            let b = one_log(&defs, "m", |n| vec![fill_from(n, 1), vec![1; n]]);
            against(&ps[p], &b, None, ctx)
        },
        move |mut i| {
            let p = digit(&mut i, np);
            let l = digit(&mut i, nl);
            format!("program {p} element type {l} array of {}", z2[i as usize])
        },
    )
}
/// A struct of many fields, each in turn logged with every type.
fn c17_names(t: Tier) -> Family {
    let ps = Arc::new(progs::c17n());
    let fs: Vec<(String, String)> = NAMED_FIELDS.iter().map(|(n, l)| (n.to_string(), l.to_string())).collect();
    let lt = logged_types();
    let fills: Vec<u64> = t.pick(vec![0, 1, 256], vec![0, 1, 2, 0x30, 0x7f, 0x80, 0xff, 256, 257]);
    let (np, nk, nl, nf) = (ps.len() as u64, fs.len() as u64, lt.len() as u64, fills.len() as u64);
    let what = format!("{np} structs with the fields {NAMED_FIELDS:?}, each in turn logged as each of {nl} types, the others as they should be, x {nf} byte fills");
    Family::new(
        "names",
        &what,
        np * nk * nl * nf,
        move |mut i, ctx| {
            let p = digit(&mut i, np) as usize;
            let k = digit(&mut i, nk) as usize;
            let l = &lt[digit(&mut i, nl) as usize];
            let fill = fills[i as usize];
            let mut defs: Vec<String> = l.0.iter().map(|s| s.to_string()).collect();
            if !defs.iter().any(|d| d.starts_with("n:")) {
                defs.push("n:uint16_t na;".into());
            }
            let mut top = "m:uint64_t timestamp;".to_string();
            for (j, (name, ty)) in fs.iter().enumerate() {
                top += &format!("{} {name};", if j == k { &l.1 } else { ty });
            }
            defs.push(top);
            let b = one_log(&defs, "m", |n| vec![if fill == 256 { fill_from(n, 1) } else { vec![fill as u8; n] }]);
            against(&ps[p], &b, None, ctx)
        },
        move |i| format!("case {i}"),
    )
}
const NAMED_FIELDS: [(&str, &str); 22] = [
    ("is_armed", "bool"), ("has_fix", "bool"), ("valid", "bool"), ("flag", "uint8_t"), ("enabled", "uint8_t"), ("count", "uint32_t"), ("num", "uint16_t"), ("len", "int32_t"), ("name", "char[3]"), ("text", "uint8_t[2]"),
    ("id", "int16_t"), ("seq", "uint64_t"), ("timestamp_sample", "uint64_t"), ("x", "float"), ("lat", "double"), ("value", "int8_t"), ("offset", "int64_t"), ("ratios", "float[2]"), ("samples", "int16_t[2]"), ("unit", "char"), ("inner", "n"), ("list", "n[2]"),
];
pub fn c17(t: Tier) -> Vec<Family> {
    let ps = Arc::new(progs::c17());
    // fills: constants (floats: NaNs, infinities, denormals, -0) and running patterns
    let fills: Vec<u64> = t.pick(vec![0, 1, 2, 0x7f, 0x80, 0xff, 256, 257], (0..=259).collect());
    let (np, nl, nf) = (ps.len() as u64, logged_types().len() as u64, fills.len() as u64);
    let (_, gen) = c17_matrix(fills);
    let g2 = gen.clone();
    let p2 = ps.clone();
    vec![c17_sizes(t), c17_names(t), Family::new(
        "matrix",
        &format!("{np} structs (a field of each of the 28 supported Rust types, plain and optional) x {nl} logged types (every primitive, scalar and arrays of 0, 1 and 3; nested formats that fit or differ, scalar and arrays; formats of formats) x {nf} byte fills x 3 positions"),
        np * nl * nf * 3,
        move |i, ctx| {
            let (p, b) = gen(i);
            against(&ps[p], &b, None, ctx)
        },
        move |i| {
            let (p, b) = g2(i);
            format!("program {} ({:?}) log {}", p2[p].name, p2[p].spec.msgs[0].s.fields[1], hex(&b))
        },
    )]
}

// ---------------------------------------------------------------- C18

/// All permutations of all subsets of 0..n that contain every element of `must`.
fn arrangements(n: usize, must: &[usize]) -> Vec<Vec<usize>> {
    let mut out = vec![];
    fn go(n: usize, cur: &mut Vec<usize>, must: &[usize], out: &mut Vec<Vec<usize>>) {
        if must.iter().all(|m| cur.contains(m)) {
            out.push(cur.clone());
        }
        for x in 0..n {
            if !cur.contains(&x) {
                cur.push(x);
                go(n, cur, must, out);
                cur.pop();
            }
        }
    }
    go(n, &mut vec![], must, &mut out);
    out
}
fn text(name: &str, pool: &[&str], a: &[usize]) -> String {
    format!("{name}:{}", a.iter().map(|i| format!("{};", pool[*i])).collect::<String>())
}
fn lookup(name: &str, what: &str, ps: Vec<Prog>, space: Vec<Vec<String>>, cuts: Vec<usize>) -> Family {
    let (np, nc, n) = (ps.len() as u64, cuts.len() as u64, space.len() as u64);
    let names: Vec<&str> = ps.iter().map(|p| p.name).collect();
    let what = format!("programs {names:?}: {what}; {n} sets of definitions, data messages shortened by each of {cuts:?} bytes");
    let space = Arc::new(space);
    let s2 = space.clone();
    Family::new(
        name,
        &what,
        np * nc * n,
        move |mut i, ctx| {
            let p = &ps[digit(&mut i, np) as usize];
            let cut = cuts[digit(&mut i, nc) as usize];
            let defs = &space[i as usize];
            let b = one_log(defs, "t", |n| if cut > n { vec![] } else { vec![fill_from(n - cut, 3), fill_from(n - cut, 0x91), fill_from(n, 0x40)] });
            against(p, &b, None, ctx)
        },
        move |i| format!("{:?}", s2[(i / np / nc) as usize]),
    )
}
pub fn c18(t: Tier) -> Vec<Family> {
    let ps = progs::c18();
    let pick = |names: &[&str]| -> Vec<Prog> { ps.iter().filter(|p| names.contains(&p.name)).cloned().collect() };
    let mut v = vec![];
    let pool = ["uint64_t timestamp", "uint16_t fa", "uint32_t fb", "uint8_t renamed_c", "uint8_t fc", "int8_t[3] extra", "uint8_t[2] _padding0"];
    let flat: Vec<Vec<String>> = arrangements(pool.len(), &[0]).iter().map(|a| vec![text("t", &pool, a)]).collect();
    v.push(lookup("flat", "every order of every subset of 7 logged fields (a decoy with the Rust name of a renamed field, an extra array, padding)", pick(&["flat", "flat_noother", "opts"]), flat, vec![0, 1, 2]));
    let pool = ["uint64_t timestamp", "uint16_t fa", "uint32_t fb", "uint8_t renamed_c", "uint64_t fd", "int8_t fe"];
    let many: Vec<Vec<String>> = arrangements(pool.len(), &[0]).iter().map(|a| vec![text("t", &pool, a)]).collect();
    v.push(lookup("many", "every order of every subset of 5 required fields", pick(&["many"]), many, vec![0]));
    // nested: arrangements of the inner format x array width x arrangements of the outer
    let inner = ["uint16_t na", "uint8_t nb", "uint16_t extra", "uint8_t[2] _padding1", "uint8_t[1] _padding2"];
    let inn = arrangements(t.pick(4, 5), &[]);
    let mut nest = vec![];
    for w in ["n nf", "n[0] nf", "n[1] nf", "n[2] nf", "n[3] nf"] {
        let outer = ["uint64_t timestamp", w, "uint16_t fa", "uint8_t[2] _padding0"];
        for o in arrangements(t.pick(3, 4), &[0]) {
            for i in &inn {
                nest.push(vec![text("n", &inner, i), text("t", &outer, &o)]);
            }
        }
    }
    v.push(lookup("nested", "every order of every subset of the inner fields (with padding) x scalar and arrays of 0..3 x every order of every subset of the outer fields", pick(&["nest0", "nest1", "nest2", "nest3"]), nest, vec![0, 1, 2, 4]));
    // names that begin, end or contain one another
    let pool = ["uint64_t timestamp", "uint16_t volt", "uint8_t volt_raw", "uint8_t raw_volt", "uint32_t vol", "int8_t voltage", "uint16_t Volt"];
    let near: Vec<Vec<String>> = arrangements(pool.len(), &[0]).iter().filter(|a| t == Tier::Thorough || a.len() <= 5 || a[0] == 0).map(|a| vec![text("t", &pool, a)]).collect();
    v.push(lookup("near", "every order of every subset of fields whose names begin, end or contain one another or differ in case", pick(&["near", "near_rev", "near_all"]), near, vec![0]));
    // decoys: two more fields of the mapped field's type whose names nearly coincide with the mapped one
    const DECOYS: [&str; 21] = ["volt_", "_volt", "volt__", "Volt", "VOLT", "volt0", "volt1", "vol_t", "v_olt", "volt_x", "x_volt", "voltt", "vvolt", "volts", "volt_raw_", "voltRaw", "volt_raw1", "_timestamp", "timestamp_", "Timestamp", "timestamps"];
    let mut dec = vec![];
    for (i, x) in DECOYS.iter().enumerate() {
        for y in &DECOYS[..i] {
            let ty = |n: &str| if n.to_lowercase().contains("stamp") { format!("uint64_t {n}") } else if n == "volt_raw1" { format!("uint16_t[2] {n}") } else { format!("uint16_t {n}") };
            let (x, y) = (ty(x), ty(y));
            for pool in [vec!["uint64_t timestamp", &x, &y], vec!["uint64_t timestamp", "uint16_t volt", &x, &y]] {
                let full: Vec<usize> = (0..pool.len()).collect();
                for a in arrangements(pool.len(), &full) {
                    dec.push(vec![text("t", &pool, &a)]);
                }
            }
        }
    }
    v.push(lookup("decoys", "every order of the timestamp, two fields out of 21 whose names nearly coincide with mapped ones, and with or without the mapped field", pick(&["solo", "solo_req", "solo_vec"]), dec, vec![0]));
    // two omitted paddings before fields that take no room
    let mut tails = vec![];
    for pool in [
        ["uint64_t timestamp", "uint8_t[2] _padding0", "uint8_t[1] _padding1", "em one", "em[2] many", "uint8_t[0] none"],
        ["uint64_t timestamp", "uint8_t[2] _padding0", "uint8_t[1] _padding1", "em[0] os", "em oo", "em[3] many"],
    ] {
        for a in arrangements(pool.len(), &[0]) {
            tails.push(vec!["em:".to_string(), text("t", &pool, &a)]);
            tails.push(vec!["em:uint8_t[0] r;".to_string(), text("t", &pool, &a)]);
        }
    }
    v.push(lookup("tails", "every order of every subset of fields that take no room and two paddings, present or omitted", pick(&["empties", "empties_req"]), tails, vec![0, 1, 2, 3]));
    // mapped padding
    let pool = ["uint64_t timestamp", "uint16_t fa", "uint8_t[2] _padding0", "uint8_t[1] _padding1", "uint8_t extra"];
    let pads: Vec<Vec<String>> = arrangements(pool.len(), &[0]).iter().map(|a| vec![text("t", &pool, a)]).collect();
    v.push(lookup("padding", "mapped padding, required and optional, at every place, present or omitted", pick(&["pads", "padr"]), pads, vec![0, 1, 2, 3]));
    // structures without (required) fields, logged formats without fields
    let inner = ["uint8_t a", "uint8_t r", "uint16_t z", "uint8_t[2] _padding1"];
    let mut emp = vec![];
    for i in arrangements(inner.len(), &[]).iter().filter(|i| i.len() <= t.pick(2, 4)) {
        for w in ["", "[0]", "[1]", "[3]"] {
            for x in ["", "[0]", "[2]"] {
                let (many, os) = (format!("em{w} many"), format!("em{x} os"));
                let outer = ["uint64_t timestamp", "em one", many.as_str(), os.as_str(), "em oo"];
                for o in arrangements(outer.len(), &[0]).iter().filter(|o| t == Tier::Thorough || o.len() == 5 || o[0] == 0) {
                    emp.push(vec![text("em", &inner, i), text("t", &outer, o)]);
                }
            }
        }
    }
    v.push(lookup("empties", "structures without required fields and formats without any: every order of inner fields x scalar and arrays of 0..3 x every order of outer fields", pick(&["empties", "empties_req"]), emp, vec![0, 1]));
    // three levels
    let mid = ["uint8_t d", "n n", "n[2] ns", "uint8_t extra", "uint8_t[2] _padding2"];
    let mut deep = vec![];
    for m in arrangements(mid.len(), &[]) {
        for n in ["n:uint16_t na;", "n:uint8_t nb;uint16_t na;uint8_t[2] _padding1;", "n:uint8_t x;", "n:uint8_t na;"] {
            for top in ["t:uint64_t timestamp;mid[2] mids;", "t:mid mid;mid[1] mids;uint64_t timestamp;", "t:uint64_t timestamp;uint16_t fa;mid[0] mids;mid mid;", "t:mid mid;uint64_t timestamp;"] {
                deep.push(vec![n.to_string(), text("mid", &mid, &m), top.to_string()]);
            }
        }
    }
    v.push(far(&ps, t));
    v.push(lookup("deep", "three levels of structures: every order of every subset of the middle level's fields", pick(&["deep"]), deep, vec![0, 2, 4]));
    v
}

/// Mapped fields behind many others, or behind much data.
fn far(ps: &[Prog], t: Tier) -> Family {
    const EDGE: [usize; 24] = [1, 7, 8, 15, 16, 31, 32, 63, 64, 126, 127, 128, 129, 253, 254, 255, 256, 257, 511, 512, 1023, 1024, 2047, 4096];
    let pads = |n: usize, from: usize| (0..n).map(|k| format!("uint8_t f{};", from + k)).collect::<String>();
    let sets: [(&[&str], &[&str]); 5] = [
        (&["flat", "flat_noother", "opts", "many"], &["uint16_t fa", "uint32_t fb", "uint8_t renamed_c", "uint64_t fd", "int8_t fe"]),
        (&["solo", "solo_req"], &["uint16_t volt"]),
        (&["pads", "padr"], &["uint16_t fa", "uint8_t[2] _padding0"]),
        (&["nest0", "nest2"], &["n nf", "uint16_t fa"]),
        (&["nest1", "nest3"], &["n[2] nf", "uint16_t fa"]),
    ];
    let mut cases: Vec<(Prog, Vec<String>)> = vec![];
    for (names, fs) in sets {
        let mut defs: Vec<Vec<String>> = vec![];
        let inner = "n:uint16_t na;uint8_t nb;".to_string();
        let list = |k: usize| -> String { fs.iter().cycle().skip(k).take(fs.len()).map(|f| format!("{f};")).collect() };
        for n in EDGE {
            for k in 0..fs.len() {
                // all behind n others; one before and the others behind
                defs.push(vec![inner.clone(), format!("t:uint64_t timestamp;{}{}", pads(n, 0), list(k))]);
                defs.push(vec![inner.clone(), format!("t:{};{}{}uint64_t timestamp;", fs[k], pads(n, 0), list(k + 1).trim_end_matches(&format!("{};", fs[k])))]);
            }
            // n others before each
            if n * (fs.len() + 1) <= 4200 {
                let each: String = fs.iter().enumerate().map(|(k, f)| format!("{}{f};", pads(n, k * n))).collect();
                defs.push(vec![inner.clone(), format!("t:uint64_t timestamp;{each}{}", pads(n, fs.len() * n))]);
            }
            // n bytes before each
            let each: String = fs.iter().enumerate().map(|(k, f)| format!("uint8_t[{n}] f{k};{f};")).collect();
            defs.push(vec![inner.clone(), format!("t:uint64_t timestamp;{each}")]);
            if fs[0].starts_with("n") {
                for i in [format!("n:{}uint16_t na;uint8_t nb;", pads(n, 0)), format!("n:uint8_t nb;{}uint16_t na;", pads(n, 0)), format!("n:uint16_t na;{}uint8_t nb;", pads(n, 0)), format!("n:uint8_t[{n}] x;uint8_t nb;uint16_t na;")] {
                    defs.push(vec![i, format!("t:uint64_t timestamp;{}", list(0))]);
                }
            }
        }
        for n in [32_767, 32_768, 60_000] {
            defs.push(vec![inner.clone(), format!("t:uint8_t[{n}] f0;{}uint64_t timestamp;", list(0))]);
            defs.push(vec![inner.clone(), format!("t:uint64_t timestamp;{};uint8_t[{n}] f0;{}", fs[0], list(1).trim_end_matches(&format!("{};", fs[0])))]);
        }
        for p in ps.iter().filter(|p| names.contains(&p.name)) {
            cases.extend(defs.iter().map(|d| (p.clone(), d.clone())));
        }
    }
    let cases = Arc::new(cases);
    let c2 = cases.clone();
    let cuts = t.pick(vec![0usize], vec![0, 1, 2]);
    let nc = cuts.len() as u64;
    Family::new(
        "far",
        &format!("{} pairs of program and definitions: mapped fields of top-level and nested structures behind {EDGE:?} others or bytes, all of them, all but the first, or each; behind 32767 to 60000 bytes; data shortened by {cuts:?}", cases.len()),
        nc * cases.len() as u64,
        move |mut i, ctx| {
            let cut = cuts[digit(&mut i, nc) as usize];
            let (p, defs) = &cases[i as usize];
            let b = one_log(defs, "t", |n| if cut > n { vec![] } else { vec![fill_from(n - cut, 3), fill_from(n - cut, 0x91), fill_from(n, 0x40)] });
            against(p, &b, None, ctx).map_err(|e| Fail::new(clip(&e.what, 600), clip(&e.input, 3000)))
        },
        move |i| clip(&format!("{:?}", c2[(i / nc) as usize].1), 3000),
    )
}

// ---------------------------------------------------------------- C19

fn ops_alphabet() -> Vec<Op> {
    vec![
        Op::Add("a".into()),
        Op::Add("b".into()),
        Op::Add("ab".into()),
        Op::Add("zz".into()),
        Op::Add("abc".into()),
        Op::Add("".into()),
        Op::Extend(vec![]),
        Op::Extend(vec!["b".into(), "ab".into()]),
        Op::Fwd(true),
        Op::Fwd(false),
    ]
}
pub fn c19(t: Tier) -> Vec<Family> {
    let ps = Arc::new(progs::c19());
    let al = ops_alphabet();
    let k = al.len() as u64;
    let d = t.pick(3u32, 4);
    let nseq: u64 = (0..=d).map(|j| k.pow(j)).sum();
    let seq = Arc::new(move |mut i: u64| -> Vec<Op> {
        let mut len = 0;
        while i >= k.pow(len) {
            i -= k.pow(len);
            len += 1;
        }
        (0..len).map(|_| al[digit(&mut i, k) as usize].clone()).collect()
    });
    // histories: subscriptions of mapped, unmapped and extra names and instances, each followed by data of every id
    let subs: Vec<Vec<u8>> = vec![sub(0, 1, "a"), sub(1, 2, "a"), sub(0, 2, "b"), sub(1, 1, "b"), sub(0, 3, "ab"), sub(0, 1, "ab"), sub(2, 3, "a"), sub(0, 2, "abc")];
    let ns = subs.len() as u64;
    let hd = t.pick(2u32, 3);
    let log = Arc::new(move |mut i: u64| -> Vec<u8> {
        let f = alphabet();
        let pre = [f[0].clone(), f[2].clone(), f[3].clone(), L::Raw("F(abc)", fmt("abc:uint64_t timestamp;uint8_t c;"))];
        let mut ls: Vec<L> = vec![];
        for _ in 0..hd {
            let b = subs[digit(&mut i, ns) as usize].clone();
            ls.push(L::Raw("sub", b));
            ls.extend([L::Data(1), L::Data(2), L::Data(3)]);
        }
        let w: Vec<usize> = (0..ls.len()).collect();
        build(&ls, &w, &pre)
    });
    let np = ps.len() as u64;
    let nlogs = ns.pow(hd);
    let (s2, l2, p2) = (seq.clone(), log.clone(), ps.clone());
    // names that nearly coincide, with each other and with mapped ones
    let nn: Vec<String> = ["A", "B", "a ", " a", "aa", "b0", "AB", "Ab"].into_iter().chain(mc::checks::c_hist::near_names()).map(String::from).collect();
    let mut calls: Vec<Vec<Op>> = vec![vec![]];
    for n in &nn {
        calls.push(vec![Op::Add(n.clone())]);
        for m in &nn {
            calls.push(vec![Op::Extend(vec![n.clone(), m.clone()])]);
            calls.push(vec![Op::Add(n.clone()), Op::Add(m.clone())]);
        }
    }
    let calls: Arc<Vec<(bool, Vec<Op>)>> = Arc::new(calls.into_iter().flat_map(|c| [(false, c.clone()), (true, c)]).collect());
    let nlog = {
        let mut v = mc::checks::c_hist::near_log();
        for n in ["a", "b", "A", "B", "aa", "b0", "AB", "Ab"] {
            v.extend(fmt(&format!("{n}:uint64_t timestamp;uint8_t v;uint8_t[10] q;")));
        }
        for (i, n) in ["a", "b", "A", "B", "aa", "b0", "AB", "Ab", "a", "A"].iter().enumerate() {
            v.extend(sub((i >= 8) as u8, 500 + i as u16, n));
        }
        for i in 0..10 {
            v.extend(data(500 + i, &mc::corpus::fill_from(19, i as u8)));
        }
        Arc::new(v)
    };
    let (c2, p3, ps2) = (calls.clone(), ps.clone(), ps.clone());
    let near = Family::new(
        "near-names",
        &format!("{np} programs x no call, each of {} names added, and each ordered pair of them added one by one or at once, forwarding of subscriptions left or on, on a log subscribing names that nearly coincide", nn.len()),
        np * calls.len() as u64,
        move |mut i, ctx| {
            let p = &ps2[digit(&mut i, np) as usize];
            let (f, c) = &calls[i as usize];
            let mut ops = c.clone();
            if *f {
                ops.push(Op::Fwd(true));
            }
            against(p, &nlog, Some(&ops), ctx)
        },
        move |mut i| {
            let p = p3[digit(&mut i, np) as usize].name;
            format!("program {p} builder calls {:?}", c2[i as usize])
        },
    );
    // many added names
    let mut sizes = mc::checks::c_hist::long_sizes(t);
    sizes.retain(|n| *n <= t.pick(600, 5000));
    let what = format!("{np} programs x 4 lists of up to n names (as in C04) added one by one, in one call or in two, forwarding of subscriptions on, on a log that subscribes n names and the mapped ones, n in {sizes:?}");
    let (n_long, ps4) = (np * 12 * sizes.len() as u64, ps.clone());
    let at = move |mut i: u64| {
        let p = digit(&mut i, np) as usize;
        let kind = digit(&mut i, 4);
        let how = digit(&mut i, 3);
        (p, sizes[i as usize], kind, how)
    };
    let at2 = at.clone();
    let long = Family::new(
        "many-names",
        &what,
        n_long,
        move |i, ctx| {
            let (p, n, kind, how) = at(i);
            let mut b = mc::checks::c_hist::named_log("n", n);
            let pre: Vec<Vec<u8>> = alphabet()[2..4].iter().map(|l| if let L::Raw(_, b) = l { b.clone() } else { vec![] }).collect();
            b.splice(16..16, cat(&pre));
            for (k, id, name) in [(0, 65_000, "a"), (1, 65_001, "b"), (0, 65_002, "b"), (1, 65_003, "a"), (0, 65_004, "n0")] {
                b.extend(sub(k, id, name));
            }
            for id in 65_000..65_005 {
                b.extend(data(id, &mc::corpus::fill_from(30, id as u8)));
            }
            let l = mc::checks::c_hist::long_list("n", n, kind);
            let mut ops = match how {
                0 => l.into_iter().map(Op::Add).collect(),
                1 => vec![Op::Extend(l)],
                _ => {
                    let k = l.len() / 2;
                    vec![Op::Extend(l[..k].to_vec()), Op::Extend(l[k..].to_vec())]
                }
            };
            ops.push(Op::Fwd(true));
            against(&ps4[p], &b, Some(&ops), ctx)
        },
        move |i| format!("(program, names, list, calls) = {:?}", at2(i)),
    );
    vec![near, long, Family::new(
        "builder",
        &format!("{np} programs (with and without forward_other) x every sequence of at most {d} builder calls over {k} calls x {nlogs} histories of {hd} subscriptions, each followed by data of every id"),
        np * nseq * nlogs,
        move |mut i, ctx| {
            let p = &ps[digit(&mut i, np) as usize];
            let b = log(digit(&mut i, nlogs));
            against(p, &b, Some(&seq(i)), ctx)
        },
        move |mut i| {
            let p = p2[digit(&mut i, np) as usize].name;
            let b = l2(digit(&mut i, nlogs));
            format!("program {p} builder calls {:?} log {}", s2(i), hex(&b))
        },
    )]
}

pub fn all() -> Vec<Check> {
    let mut v = vec![];
    // checks of the parser that have a part about derived streams
    for mut c in mc::checks::all() {
        c.families = match c.id {
            "C05" => c05,
            "C06" => c06,
            "C07" => c07,
            "C08" => c08,
            "C13" => c13,
            "C21" => c21,
            "C24" => c24,
            _ => continue,
        };
        v.push(c);
    }
    v.extend([
        Check { id: "C16", level: "model_checking", rule: "states = distinct states of the derived-stream model (reader state, id bindings, settings) per program; every log is run through the compiled program and all items compared with the model", assumptions: vec!["struct and enum programs are the fixed set in mcd/src/progs.rs".into()], families: c16 },
        Check { id: "C17", level: "model_checking", rule: "states = distinct model states per program; each pair of Rust type and logged type is run through a compiled program and its item compared with the model", assumptions: vec!["programs are the fixed set in mcd/src/progs.rs: every supported field type once, plain and optional".into()], families: c17 },
        Check { id: "C18", level: "model_checking", rule: "states = distinct model states per program; each log is run through a compiled program and its item compared with the model", assumptions: vec!["programs are the fixed set in mcd/src/progs.rs".into()], families: c18 },
        Check { id: "C19", level: "model_checking", rule: "states = distinct model states per program and setting; each sequence of builder calls is executed on the compiled program over each history and all items compared with the model", assumptions: vec!["programs are the fixed set in mcd/src/progs.rs".into()], families: c19 },
    ]);
    v
}
fn base(id: &str, t: Tier) -> Vec<Family> {
    let c = mc::checks::all().into_iter().find(|c| c.id == id).unwrap();
    (c.families)(t)
}
/// The families whose streams are held against the model, with the property they decide.
pub fn judged(t: Tier) -> Vec<(&'static str, Family)> {
    [("C16", c16(t)), ("C17", c17(t)), ("C18", c18(t)), ("C19", c19(t)), ("C21", vec![again_once(t)])].into_iter().flat_map(|(c, v)| v.into_iter().map(move |f| (c, f))).collect()
}
fn again_once(t: Tier) -> Family {
    let jobs = again_jobs(t);
    Family::new("lookups", "the pairs of program and log of C21's derived-again", jobs.len() as u64, move |i, ctx| against(&jobs[i as usize].0, &jobs[i as usize].1, None, ctx), |i| format!("pair {i}"))
}
fn c24(t: Tier) -> Vec<Family> {
    base("C24", t).into_iter().chain(crate::both::families(t)).collect()
}
fn c05(t: Tier) -> Vec<Family> {
    base("C05", t).into_iter().chain(env::cuts()).collect()
}
fn c06(t: Tier) -> Vec<Family> {
    base("C06", t).into_iter().chain(env::chunks(t)).collect()
}
fn c07(t: Tier) -> Vec<Family> {
    base("C07", t).into_iter().chain(env::failures(t)).collect()
}
fn c08(t: Tier) -> Vec<Family> {
    base("C08", t).into_iter().chain(env::hostile(t)).collect()
}
fn c13(t: Tier) -> Vec<Family> {
    base("C13", t).into_iter().chain(env::live(t)).collect()
}
