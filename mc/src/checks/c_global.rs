//! C21 independence, determinism, silence; C24 the thread_safe build.
use super::*;
use crate::corpus::{self, Space};
use crate::readers::{Chunked, Failing};
use crate::wire::*;
use std::io::Read;
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use yule_log::encode::Encode;
use yule_log::model::msg::UlogMessage;

// ---------------------------------------------------------------- logs that collide in every name and id

/// Logs sharing names, ids and keys but giving them different meanings.
pub fn rivals() -> Vec<(Vec<u8>, Cfg)> {
    let l1 = cat(&[header(), fmt("a:uint64_t timestamp;uint8_t v;"), sub(0, 1, "a"), data(1, &[1, 0, 0, 0, 0, 0, 0, 0, 7]), data(2, &[1; 9])]);
    let l2 = cat(&[
        header_v(1, 99),
        fmt("a:int16_t w;uint64_t timestamp;uint8_t[2] _padding0;"),
        sub(3, 1, "a"),
        data(1, &[9, 9, 1, 0, 0, 0, 0, 0, 0, 0]),
        unsub(1),
    ]);
    let l3 = cat(&[header(), fmt("b:uint64_t timestamp;"), fmt("a:b x;uint64_t timestamp;"), sub(0, 2, "a"), data(2, &[5; 16])]);
    let l4 = cat(&[header(), info("char[2] k", b"hi"), tlog(b'3', 2, 9, b"tag"), fmt("a:uint64_t timestamp;a2 z;"), sub(0, 1, "a")]);
    let l5 = cat(&[header(), fmt("a:uint64_t timestamp;"), sub(0, 1, "a"), sub(1, 2, "a"), data(2, &[4; 8])]);
    vec![
        (l1.clone(), Cfg::all()),
        (l2, Cfg { hdr: true, ts: false, pad: false, allow: None }),
        (l3, Cfg::all()),
        (l4, Cfg::default()),
        (l5, Cfg::all().allow(&["b"])),
        (l1, Cfg::all().allow(&["zz"])),
    ]
}
fn step<R: Read>(p: &mut yule_log::parser::ULogParser<R>) -> (Option<Obs>, Vec<u8>) {
    let mut bytes = vec![];
    let o = p.next().map(|r| {
        match &r {
            Ok(m) => {
                let _ = m.encode(&mut bytes);
            }
            // within one build the text of an error is part of the item
            Err(e) => bytes = e.to_string().into_bytes(),
        }
        item(&r)
    });
    (o, bytes)
}
type Trace = Vec<(Option<Obs>, Vec<u8>)>;
/// The steps of one parser on its own, in a fresh run. A panic is its last step.
fn alone(b: &[u8], c: &Cfg) -> Trace {
    let v = std::cell::RefCell::new(vec![]);
    let r = guard(|| {
        let mut p = parser(b, c);
        for _ in 0..cap_for(b.len()) + 2 {
            let s = step(&mut p);
            let end = s.0.is_none();
            v.borrow_mut().push(s);
            if end {
                break;
            }
        }
    });
    let mut v = v.into_inner();
    if let Err(e) = r {
        v.push((Some(Obs::Panic(e)), vec![]));
    }
    v
}
/// The same for the rival logs, run once.
fn solo() -> &'static Vec<Trace> {
    static T: OnceLock<Vec<Trace>> = OnceLock::new();
    T.get_or_init(|| rivals().iter().map(|(b, c)| alone(b, c)).collect())
}
/// The index-th interleaving of the multiset with the given counts.
pub fn interleaving(counts: &[usize], mut idx: u64) -> Vec<usize> {
    let mut c = counts.to_vec();
    let mut out = vec![];
    while c.iter().any(|x| *x > 0) {
        for k in 0..c.len() {
            if c[k] == 0 {
                continue;
            }
            c[k] -= 1;
            let n = multinomial(&c);
            if idx < n {
                out.push(k);
                break;
            }
            idx -= n;
            c[k] += 1;
        }
    }
    out
}
pub fn multinomial(c: &[usize]) -> u64 {
    let mut r = 1u64;
    let mut n = 0u64;
    for k in c {
        for j in 1..=*k as u64 {
            n += 1;
            r = r * n / j;
        }
    }
    r
}
/// Interleavings of the parsers of `sets`: each first makes `skip` steps alone, then `cap` steps (all, if 0) are
/// interleaved in every order, the rest follows.
fn same_thread(name: &str, sets: Vec<Vec<usize>>, skip: usize, cap: usize) -> Family {
    let k = sets[0].len();
    let ns = sets.len();
    let g: Vec<(Vec<usize>, Vec<usize>, u64)> = sets
        .into_iter()
        .map(|s| {
            let counts: Vec<usize> = s.iter().map(|i| solo()[*i].len().saturating_sub(skip)).map(|n| if cap > 0 { n.min(cap) } else { n }).collect();
            let n = multinomial(&counts);
            (s, counts, n)
        })
        .collect();
    let total = g.iter().map(|x| x.2).sum();
    let g = Arc::new(g);
    let g2 = g.clone();
    let find = move |g: &[(Vec<usize>, Vec<usize>, u64)], mut i: u64| {
        for (s, c, n) in g {
            if i < *n {
                let mut order: Vec<usize> = (0..s.len()).flat_map(|x| std::iter::repeat_n(x, skip)).collect();
                order.extend(interleaving(c, i));
                return (s.clone(), order);
            }
            i -= n;
        }
        unreachable!()
    };
    let find2 = find.clone();
    Family::new(
        name,
        &format!("all interleavings of the next()+encode steps ({}) of {k} parsers, {ns} sets of logs with colliding names and ids and different options", if cap > 0 { format!("steps {skip}..{}", skip + cap) } else { "complete".into() }),
        total,
        move |i, ctx| {
            let (set, order) = find(&g, i);
            let r = rivals();
            let want: Vec<&Trace> = set.iter().map(|s| &solo()[*s]).collect();
            let res = guard(|| {
                let mut ps: Vec<_> = set.iter().map(|s| parser(&r[*s].0[..], &r[*s].1)).collect();
                let mut got: Vec<Trace> = vec![vec![]; set.len()];
                for x in &order {
                    let s = step(&mut ps[*x]);
                    got[*x].push(s);
                }
                for (x, p) in ps.iter_mut().enumerate() {
                    while got[x].len() < want[x].len() {
                        got[x].push(step(p));
                    }
                }
                got
            });
            ctx.execs += 1;
            ctx.transitions += want.iter().map(|w| w.len() as u64).sum::<u64>();
            ctx.state(&(&set, &order));
            let got = res.map_err(|p| Fail::new(format!("panic: {p}"), format!("logs {set:?} order {order:?}")))?;
            ctx.outcome(&got);
            for (x, (g, w)) in got.iter().zip(&want).enumerate() {
                if g != *w {
                    return Err(Fail::new(format!("parser {x} yields {g:?}, alone {w:?}"), format!("logs {set:?} order {order:?}")));
                }
            }
            Ok(())
        },
        move |i| {
            let (s, o) = find2(&g2, i);
            format!("logs {s:?} order {o:?}")
        },
    )
}

/// A reader that runs `hook` before its n-th read call, so that another parser runs in the middle of a message.
struct Hooked<'a> {
    data: &'a [u8],
    n: usize,
    at: usize,
    hook: &'a mut dyn FnMut(),
}
impl Read for Hooked<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.n == self.at {
            (self.hook)();
        }
        self.n += 1;
        self.data.read(b)
    }
}
fn nested(t: Tier) -> Family {
    let r = rivals();
    let n = r.len() as u64;
    let ats = t.pick(40u64, 60);
    let ks = 8u64;
    Family::new(
        "nested",
        "for each pair of logs: the second parser runs k steps (k = 0..8) inside the n-th read call of the first (n = 0..40), i.e. in the middle of its message, and the rest after each of its own steps",
        n * n * ats * ks,
        move |i, ctx| {
            let (a, b, at, k) = nested_case(i, n, ats);
            let r = rivals();
            let (wa, wb) = (&solo()[a], &solo()[b]);
            let res = guard(|| {
                let mut inner = parser(&r[b].0[..], &r[b].1);
                let gb = std::cell::RefCell::new(vec![]);
                let mut hook = || {
                    for _ in 0..k {
                        if gb.borrow().len() < wb.len() {
                            let s = step(&mut inner);
                            gb.borrow_mut().push(s);
                        }
                    }
                };
                let rd = Hooked { data: &r[a].0, n: 0, at, hook: &mut hook };
                let mut p = parser(rd, &r[a].1);
                let mut ga = vec![];
                for _ in 0..wa.len() {
                    ga.push(step(&mut p));
                }
                drop(p);
                let mut gb = gb.into_inner();
                while gb.len() < wb.len() {
                    gb.push(step(&mut inner));
                }
                (ga, gb)
            });
            ctx.execs += 1;
            ctx.transitions += (wa.len() + wb.len()) as u64;
            ctx.state(&(a, b, at, k));
            let what = || format!("log {b} runs {k} steps inside read {at} of log {a}");
            let (ga, gb) = res.map_err(|p| Fail::new(format!("panic: {p}"), what()))?;
            if ga != *wa || gb != *wb {
                return Err(Fail::new(format!("outer yields {ga:?} (alone {wa:?}); inner yields {gb:?} (alone {wb:?})"), what()));
            }
            Ok(())
        },
        move |i| {
            let (a, b, at, k) = nested_case(i, n, ats);
            format!("log {b} runs {k} steps inside read {at} of log {a}")
        },
    )
}
fn nested_case(mut i: u64, n: u64, ats: u64) -> (usize, usize, usize, usize) {
    let a = corpus::digit(&mut i, n) as usize;
    let b = corpus::digit(&mut i, n) as usize;
    let at = corpus::digit(&mut i, ats) as usize;
    (a, b, at, i as usize + 1)
}

// ---------------------------------------------------------------- threads under a controlled scheduler

/// Exactly one of the threads runs at a time; control changes hands only at the chosen yield points (every read call
/// is one) or when a thread ends.
pub struct Sched {
    st: Mutex<St>,
    cv: Condvar,
}
struct St {
    cur: usize,
    step: usize,
    done: [bool; 2],
    switches: Vec<usize>,
}
impl Sched {
    pub fn new(switches: Vec<usize>) -> Arc<Sched> {
        Arc::new(Sched { st: Mutex::new(St { cur: 0, step: 0, done: [false; 2], switches }), cv: Condvar::new() })
    }
    pub fn wait(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        while g.cur != me {
            g = self.cv.wait(g).unwrap();
        }
    }
    pub fn point(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        let s = g.step;
        g.step += 1;
        if g.switches.contains(&s) && !g.done[1 - me] {
            g.cur = 1 - me;
            self.cv.notify_all();
            while g.cur != me {
                g = self.cv.wait(g).unwrap();
            }
        }
    }
    pub fn end(&self, me: usize) {
        let mut g = self.st.lock().unwrap();
        g.done[me] = true;
        if !g.done[1 - me] {
            g.cur = 1 - me;
        }
        self.cv.notify_all();
    }
    pub fn steps(&self) -> usize {
        self.st.lock().unwrap().step
    }
}
struct Yielding {
    data: Vec<u8>,
    pos: usize,
    me: usize,
    s: Arc<Sched>,
}
impl Read for Yielding {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.s.point(self.me);
        let n = (&self.data[self.pos..]).read(b)?;
        self.pos += n;
        Ok(n)
    }
}
fn two_threads(a: usize, b: usize, switches: Vec<usize>) -> Result<([Trace; 2], usize), String> {
    let s = Sched::new(switches);
    let r = rivals();
    let hs: Vec<_> = [a, b]
        .into_iter()
        .enumerate()
        .map(|(me, l)| {
            let (s, (log, cfg)) = (s.clone(), r[l].clone());
            std::thread::spawn(move || {
                s.wait(me);
                let n = cap_for(log.len()) + 2;
                let got = guard(|| {
                    let mut p = parser(Yielding { data: log, pos: 0, me, s: s.clone() }, &cfg);
                    let mut v = vec![];
                    for _ in 0..n {
                        let x = step(&mut p);
                        s.point(me);
                        let end = x.0.is_none();
                        v.push(x);
                        if end {
                            break;
                        }
                    }
                    v
                });
                s.end(me);
                got
            })
        })
        .collect();
    let mut out = vec![];
    for h in hs {
        out.push(h.join().map_err(|_| "thread died".to_string())??);
    }
    let b = out.pop().unwrap();
    let a = out.pop().unwrap();
    Ok(([a, b], s.steps()))
}
fn threads_family(t: Tier) -> Family {
    let pairs: Vec<(usize, usize)> = t.pick(vec![(0, 1), (1, 0), (2, 0), (4, 5), (0, 0)], (0..6).flat_map(|a| (0..6).map(move |b| (a, b))).collect());
    let depth = t.pick(2usize, 3);
    // number of yield points differs per pair: take the measured one
    let pts: Vec<usize> = pairs.iter().map(|(a, b)| two_threads(*a, *b, vec![]).map_or(1, |x| x.1)).collect();
    let maxp = *pts.iter().max().unwrap() as u64;
    let np = pairs.len() as u64;
    let case = move |mut i: u64| {
        let p = corpus::digit(&mut i, np) as usize;
        let mut sw: Vec<usize> = vec![];
        for _ in 0..depth {
            sw.push(corpus::digit(&mut i, maxp + 1) as usize);
        }
        (p, sw)
    };
    let pairs2 = pairs.clone();
    let show = move |i: u64| {
        let (p, sw) = case(i);
        format!("two threads, logs {:?}, switches at yield points {sw:?}", pairs2[p])
    };
    let show2 = show.clone();
    Family::new(
        "threads",
        &format!("two parsers on two threads, every schedule with at most {depth} preemptions at any of the up to {maxp} yield points (every read call and item), {np} pairs of logs"),
        np * (maxp + 1).pow(depth as u32),
        move |i, ctx| {
            let (p, sw) = case(i);
            // ascending positions only: other orders denote the same schedule; maxp means "no switch"
            if sw.windows(2).any(|w| w[0] > w[1] || (w[0] == w[1] && (w[0] as u64) < maxp)) || sw.iter().any(|s| *s >= pts[p] && (*s as u64) < maxp) {
                ctx.skipped += 1;
                return Ok(());
            }
            let (a, b) = pairs[p];
            let (wa, wb) = (&solo()[a], &solo()[b]);
            ctx.execs += 1;
            ctx.transitions += (wa.len() + wb.len()) as u64;
            ctx.state(&(p, &sw));
            match two_threads(a, b, sw) {
                Err(e) => Err(Fail::new(format!("panic: {e}"), show2(i))),
                Ok(([ga, gb], _)) if ga != *wa || gb != *wb => Err(Fail::new(format!("thread 0 yields {ga:?} (alone {wa:?}); thread 1 yields {gb:?} (alone {wb:?})"), show2(i))),
                Ok(_) => Ok(()),
            }
        },
        show,
    )
}

// ---------------------------------------------------------------- logs that differ in as little as possible

/// Small logs over the same names, ids and keys whose texts have the same lengths.
fn twin_logs(t: Tier) -> Vec<Vec<u8>> {
    let a = ["a:uint64_t timestamp;uint8_t[4] vw;", "a:uint64_t timestamp;int32_t[1] vw;", "a:uint64_t timestamp;uint8_t[4] wv;", "a:uint8_t[4] vw;uint64_t timestamp;", "a:uint64_t timestamp;float vw;b xyz;", "a:uint64_t timestamp;float vw;c xyz;"];
    let b = ["b:uint16_t na;c:", "b:int16_t n_;c_", "b:uint32_t n;c2"];
    let subs = [sub(0, 1, "a"), sub(1, 1, "a"), sub(0, 2, "a"), sub(0, 1, "b")];
    let rest: [Vec<Vec<u8>>; 3] = [
        vec![info("char[2] k", b"hi"), param("int32_t P", &[1, 0, 0, 0]), tlog(b'3', 1, 9, b"one"), multi_info(0, "char[2] m", b"aa")],
        vec![info("char[2] k", b"ho"), param("int32_t P", &[2, 0, 0, 0]), tlog(b'4', 1, 9, b"two"), multi_info(1, "char[2] m", b"ab")],
        vec![info("uint8_t k", b"h"), param("float P", &[1, 0, 0, 0]), tlog(b'3', 2, 9, b"one"), multi_info(0, "int16_t m", b"aa")],
    ];
    let mut out = vec![];
    for (k, x) in a.iter().enumerate() {
        for y in &b {
            for (j, s) in subs.iter().enumerate() {
                for (l, r) in rest.iter().enumerate() {
                    if t == Tier::Quick && k % 2 + j % 2 + l % 2 == 1 {
                        continue;
                    }
                    let (y, z) = (&y[..12], &y[12..]);
                    let mut v = header_v(1, 7 + l as u64);
                    let mut m = rm::Model::default();
                    let mut put = |x: Vec<u8>| {
                        let _ = m.step(x[2], &x[3..], &Cfg::all());
                        v.extend(x);
                    };
                    put(fmt(y));
                    put(fmt(&format!("c:uint8_t{} q;uint64_t timestamp;", if z == "c:" { "[3]" } else { "[2]" })));
                    put(fmt(x));
                    for q in r {
                        put(q.clone());
                    }
                    put(s.clone());
                    put(data(1, &corpus::fill_from(if k < 4 { 12 } else { 24 }, l as u8)));
                    put(data(2, &corpus::fill_from(12, 0x80 + l as u8)));
                    out.push(v);
                }
            }
        }
    }
    out
}
/// One log whose every name in turn is replaced by similar ones (case, prefix, extension, same ends, same length).
fn renamed_logs() -> Vec<Vec<u8>> {
    let names = ["nam", "Nam", "NAM", "nAm", "nam2", "na", "naam", "am", "man", "nan", "nam_"];
    let mut out: Vec<Vec<u8>> = vec![];
    for site in 0..9 {
        for n in names {
            let x = |k: usize| if k == site { n.to_string() } else { format!("{}nam", &"xyzuvwrst"[k..k + 1]) };
            let mut v = header_v(1, 7);
            let mut m = rm::Model::default();
            let mut put = |b: Vec<u8>| {
                let _ = m.step(b[2], &b[3..], &Cfg::all());
                v.extend(b);
            };
            put(fmt(&format!("{}:uint16_t {};", x(0), x(1))));
            put(fmt(&format!("{}:uint64_t timestamp;{} {};uint8_t[2] {};", x(2), x(0), x(3), x(4))));
            put(info(&format!("char[2] {}", x(5)), b"hi"));
            put(param(&format!("int32_t {}", x(6)), &[1, 0, 0, 0]));
            put(multi_info(0, &format!("char[2] {}", x(7)), b"aa"));
            put(sub(0, 1, &x(2)));
            put(tlog(b'3', 1, 9, x(8).as_bytes()));
            put(data(1, &corpus::fill_from(12, 5)));
            if !out.contains(&v) {
                out.push(v);
            }
        }
    }
    out
}
/// Two parsers on one thread, in one of four orders, each against the reader model.
fn twins(name: &str, about: &str, logs: Vec<Vec<u8>>) -> Family {
    let logs = Arc::new(logs);
    let n = logs.len() as u64;
    let l2 = logs.clone();
    Family::new(
        name,
        &format!("every ordered pair of {n} logs {about}, parsed one after the other, alternately, the second inside the first, and on two threads one after the other; each compared with the reader model"),
        n * n * 4,
        move |mut i, ctx| {
            let mode = corpus::digit(&mut i, 4);
            let a = &logs[corpus::digit(&mut i, n) as usize];
            let b = &logs[i as usize];
            let cfg = Cfg::all();
            let (ea, eb) = (rm::expect(a, &cfg), rm::expect(b, &cfg));
            let what = || format!("order {mode}, logs {} and {}", hex(a), hex(b));
            let got = guard(|| {
                let (mut ga, mut gb) = (vec![], vec![]);
                match mode {
                    0 => {
                        ga = run(a, &cfg);
                        gb = run(b, &cfg);
                    }
                    1 | 2 => {
                        let (mut p, mut q) = (parser(&a[..], &cfg), parser(&b[..], &cfg));
                        for k in 0..cap_for(a.len() + b.len()) {
                            let x = p.next();
                            ga.extend(x.as_ref().map(item));
                            if mode == 2 && k < 4 {
                                continue;
                            }
                            let y = q.next();
                            gb.extend(y.as_ref().map(item));
                            if x.is_none() && y.is_none() {
                                break;
                            }
                        }
                    }
                    _ => {
                        ga = run(a, &cfg);
                        let (b, cfg) = (b.clone(), cfg.clone());
                        gb = std::thread::spawn(move || run(&b, &cfg)).join().unwrap_or_default();
                    }
                }
                (ga, gb)
            });
            let (ga, gb) = got.map_err(|p| Fail::new(format!("panic: {p}"), what()))?;
            tally(&ea, &ga, ctx);
            tally(&eb, &gb, ctx);
            ctx.state(&(a, b, mode));
            rm::compare(&ea, &ga).map_err(|w| Fail::new(format!("first log: {w}"), what()))?;
            rm::compare(&eb, &gb).map_err(|w| Fail::new(format!("second log: {w}"), what()))
        },
        move |mut i| {
            let mode = corpus::digit(&mut i, 4);
            let a = corpus::digit(&mut i, n) as usize;
            format!("order {mode}, logs {} and {}", hex(&l2[a]), hex(&l2[i as usize]))
        },
    )
}

// ---------------------------------------------------------------- repetition, log level, silence

fn again(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    let f = |b: &[u8]| guard(|| alone(b, &Cfg::all())).map_err(|p| Fail::new(format!("panic: {p}"), hex(b)));
    let first = f(b)?;
    let second = f(b)?;
    ctx.execs += 2;
    ctx.transitions += first.len() as u64 * 2;
    ctx.outcome(&first);
    ctx.state(&b);
    if first != second {
        return Err(Fail::new("the second parse of the same log differs from the first", hex(b)));
    }
    Ok(())
}
fn levels(t: Tier) -> Family {
    static LOCK: Mutex<()> = Mutex::new(());
    let all = [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Warn, log::LevelFilter::Info, log::LevelFilter::Debug, log::LevelFilter::Trace];
    let logs: Vec<Vec<u8>> = rivals().into_iter().map(|x| x.0).chain(corpus::small()).chain([corpus::omnibus()]).chain(super::c_hist::malformed(t).into_iter().map(|m| cat(&[header(), fmt("m:uint64_t timestamp;uint8_t a;"), m, sub(0, 1, "m"), data(1, &[1; 9])]))).collect();
    let n = logs.len() as u64;
    let l2 = logs.clone();
    Family::new(
        "levels",
        "every small log and malformed message at each of the six log levels, with a logger that formats every record",
        n * 6,
        move |i, ctx| {
            let b = &logs[(i % n) as usize];
            let l = all[(i / n) as usize];
            let _g = LOCK.lock().unwrap_or_else(|e| e.into_inner());
            super::c_hostile::install_logger(l);
            let a = guard(|| alone(b, &Cfg::all()));
            super::c_hostile::install_logger(log::LevelFilter::Off);
            let o = guard(|| alone(b, &Cfg::all()));
            ctx.execs += 2;
            ctx.state(&(b, l as usize));
            match (a, o) {
                (Ok(a), Ok(o)) if a == o => {
                    ctx.transitions += a.len() as u64;
                    Ok(())
                }
                (a, o) => Err(Fail::new(format!("at log level {l}: {a:?}; with logging off: {o:?}"), hex(b))),
            }
        },
        move |i| format!("level {} log {}", all[(i / n) as usize], hex(&l2[(i % n) as usize])),
    )
}
fn silent_spaces(t: Tier) -> Vec<Space> {
    let mut v = corpus::all(t);
    v.push(super::c_hist::words_space(3));
    v.push(Space::list(
        "malformed",
        "malformed messages",
        super::c_hist::malformed(t).into_iter().map(|m| cat(&[header(), fmt("m:uint64_t timestamp;uint8_t a;"), m.clone(), sub(0, 1, "m"), data(1, &[1; 9]), m])).collect(),
    ));
    v.push(corpus::misfits());
    v.extend(super::c_hostile::hostile(t));
    // cut logs: the end-of-input paths
    let o = corpus::omnibus();
    v.push(Space::new("cuts", "every prefix of the omnibus log", o.len() as u64, move |i| o[..i as usize].to_vec()));
    v
}
/// Child mode: runs logs LO..HI of a space, printing nothing itself.
fn silent_child(t: Tier, space: usize, lo: u64, hi: u64) {
    let sp = silent_spaces(t);
    for i in lo..hi.min(sp[space].count) {
        let b = (sp[space].gen)(i);
        for c in [Cfg::all(), Cfg::default().allow(&["a"])] {
            let mut p = parser(&b[..], &c);
            for _ in 0..cap_for(b.len()) + 2 {
                match p.next() {
                    None => break,
                    Some(Ok(m)) => {
                        let mut o = vec![];
                        let _ = m.encode(&mut o);
                    }
                    Some(Err(_)) => {}
                }
            }
        }
    }
}
fn child_output(t: Tier, s: usize, lo: u64, hi: u64) -> (Vec<u8>, Vec<u8>) {
    let o = std::process::Command::new(std::env::current_exe().expect("exe"))
        .args(["silent", if t == Tier::Quick { "quick" } else { "thorough" }, &s.to_string(), &lo.to_string(), &hi.to_string()])
        .stdin(std::process::Stdio::null())
        .output()
        .expect("child");
    (o.stdout, o.stderr)
}
fn silence(t: Tier) -> Family {
    let sp = silent_spaces(t);
    const CH: u64 = 2000;
    let mut blocks = vec![];
    for (s, x) in sp.iter().enumerate() {
        let cap = x.count.min(t.pick(40_000, 400_000));
        let mut lo = 0;
        while lo < cap {
            blocks.push((s, lo, (lo + CH).min(cap)));
            lo += CH;
        }
    }
    let b2 = blocks.clone();
    let names: Vec<&str> = sp.iter().map(|s| s.name).collect();
    Family::new(
        "silence",
        &format!("blocks of up to {CH} logs of the spaces {names:?} parsed and re-encoded in a child process whose stdout and stderr must stay empty"),
        blocks.len() as u64,
        move |i, ctx| {
            let (s, lo, hi) = blocks[i as usize];
            let (o, e) = child_output(t, s, lo, hi);
            ctx.execs += hi - lo;
            ctx.transitions += hi - lo;
            ctx.state(&(s, lo));
            ctx.note("logs parsed in silence", hi - lo);
            if o.is_empty() && e.is_empty() {
                return Ok(());
            }
            // narrow down to one log
            let (mut lo, mut hi) = (lo, hi);
            while hi - lo > 1 {
                let mid = (lo + hi) / 2;
                let (a, b) = child_output(t, s, lo, mid);
                if a.is_empty() && b.is_empty() {
                    lo = mid
                } else {
                    hi = mid
                }
            }
            let (o, e) = child_output(t, s, lo, lo + 1);
            let log = (silent_spaces(t)[s].gen)(lo);
            Err(Fail::new(format!("parsing writes to stdout {:?} stderr {:?}", clip(&String::from_utf8_lossy(&o), 300), clip(&String::from_utf8_lossy(&e), 300)), hex(&log)))
        },
        move |i| format!("{:?}", b2[i as usize]),
    )
}

pub const LEVELS: [log::LevelFilter; 6] = [log::LevelFilter::Off, log::LevelFilter::Error, log::LevelFilter::Warn, log::LevelFilter::Info, log::LevelFilter::Debug, log::LevelFilter::Trace];
/// Child mode: digests of logs LO..HI of a space at a log level.
fn level_child(t: Tier, space: usize, lo: u64, hi: u64, level: usize) {
    install_hook();
    super::c_hostile::install_logger(LEVELS[level]);
    let g = &silent_spaces(t)[space].gen;
    put_digests((lo..hi).map(|i| {
        let b = g(i);
        hash(&[Cfg::all(), Cfg::default().allow(&["a"])].map(|c| guard(|| alone(&b, &c)).ok()))
    }));
}
pub fn put_digests(v: impl Iterator<Item = u64>) {
    use std::io::Write as _;
    let bytes: Vec<u8> = v.flat_map(u64::to_le_bytes).collect();
    std::io::stdout().write_all(b"DIGEST>>").unwrap();
    std::io::stdout().write_all(&bytes).unwrap();
}
/// What a child printed besides its digests, and the digests.
pub fn get_digests(exe: std::ffi::OsString, args: &[String]) -> (Vec<u8>, Vec<u64>) {
    let o = std::process::Command::new(exe).args(args).stdin(std::process::Stdio::null()).output().expect("child");
    let p = o.stdout.windows(8).position(|w| w == b"DIGEST>>").unwrap_or(o.stdout.len());
    let d = o.stdout[(p + 8).min(o.stdout.len())..].chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    ([&o.stdout[..p], &o.stderr].concat(), d)
}
/// Blocks of cases executed in a child process at each log level; `input` describes a case.
pub fn at_levels(name: &str, what: &str, blocks: Vec<(usize, u64, u64)>, mode: &'static str, t: Tier, input: impl Fn(usize, u64) -> String + Send + Sync + 'static) -> Family {
    let n = blocks.len() as u64;
    let b2 = blocks.clone();
    let off: Vec<OnceLock<Vec<u64>>> = blocks.iter().map(|_| OnceLock::new()).collect();
    Family::new(
        name,
        what,
        n * 5,
        move |mut i, ctx| {
            let level = 5 - corpus::digit(&mut i, 5) as usize;
            let (s, lo, hi) = blocks[i as usize];
            let get = |level: usize| {
                let a = [mode, if t == Tier::Quick { "quick" } else { "thorough" }].map(String::from);
                let b = [s as u64, lo, hi, level as u64].map(|x| x.to_string());
                get_digests(std::env::current_exe().expect("exe").into(), &[&a[..], &b[..]].concat())
            };
            let want = off[i as usize].get_or_init(|| get(0).1);
            let (printed, d) = get(level);
            ctx.execs += hi - lo;
            ctx.transitions += hi - lo;
            ctx.state(&(s, lo, level));
            ctx.note("logs read at a log level", hi - lo);
            if d.len() as u64 != hi - lo || want.len() as u64 != hi - lo {
                return Err(Fail::new(format!("the process that reads cases {lo}..{hi} at log level {} or with logging off ended early: {}", LEVELS[level], clip(&String::from_utf8_lossy(&printed), 300)), input(s, lo)));
            }
            if let Some(k) = d.iter().zip(want).position(|(a, b)| a != b) {
                return Err(Fail::new(format!("the items at log level {} differ from those with logging off", LEVELS[level]), input(s, lo + k as u64)));
            }
            if !printed.is_empty() {
                return Err(Fail::new(format!("reading cases {lo}..{hi} at log level {} writes {:?}", LEVELS[level], clip(&String::from_utf8_lossy(&printed), 300)), input(s, lo)));
            }
            Ok(())
        },
        move |i| format!("{:?} at log level {}", b2[(i / 5) as usize], LEVELS[5 - (i % 5) as usize]),
    )
}
/// Up to `cap` cases of each space in blocks, spread over the space.
pub fn blocks_of(counts: &[u64], cap: u64, ch: u64) -> Vec<(usize, u64, u64)> {
    let mut v = vec![];
    for (s, n) in counts.iter().enumerate() {
        let k = n.min(&cap).div_ceil(ch);
        for j in 0..k {
            let lo = if *n <= cap { j * ch } else { n / k * j };
            v.push((s, lo, (lo + ch).min(*n)));
        }
    }
    v
}
fn wide_levels(t: Tier) -> Family {
    let sp = silent_spaces(t);
    let names: Vec<&str> = sp.iter().map(|s| s.name).collect();
    let counts: Vec<u64> = sp.iter().map(|s| s.count).collect();
    let cap = t.pick(16_000, 400_000);
    at_levels(
        "levels-wide",
        &format!("up to {cap} logs of each of the spaces {names:?} in a child process at each of the log levels Error to Trace, with a logger that formats every record, compared with logging off; the process writes nothing else"),
        blocks_of(&counts, cap, 2000),
        "levels",
        t,
        move |s, i| hex(&(silent_spaces(t)[s].gen)(i)),
    )
}

// ---------------------------------------------------------------- C24

fn digest(b: &[u8]) -> u64 {
    let mut h = vec![];
    let mut cfgs = vec![Cfg::all(), Cfg::default(), Cfg::default().allow(&["a", "m"])];
    // for some logs, every set of options and readers that split, end early or fail
    let more = hash(&b) % 8 == 0;
    if more {
        cfgs.extend((1..7).map(|k| Cfg { hdr: k & 1 != 0, ts: k & 2 != 0, pad: k & 4 != 0, allow: None }));
        cfgs.push(Cfg::all().allow(&[]));
    }
    for c in cfgs {
        h.push(hash(&run(b, &c)));
    }
    if more {
        for (k, at) in [(0, b.len() / 2), (1, b.len() * 2 / 3), (2, b.len())] {
            let r = guard(|| {
                let mut c = Chunked::new(&b[..if k == 1 { at } else { b.len() }]);
                c.max = [1, 3, 7][k];
                c.every = k as u32;
                let texts = |r: &mut dyn Iterator<Item = Result<UlogMessage, yule_log::errors::ULogError>>| r.map(|x| (item(&x), x.err().map(|e| e.to_string()))).collect::<Vec<_>>();
                let x = texts(&mut parser(c, &Cfg::all()).take(cap_for(b.len()) + 1));
                let f = Failing { data: b, pos: 0, at, kind: std::io::ErrorKind::TimedOut, times: 1 + k as u32, failed: Default::default() };
                let y = texts(&mut parser(f, &Cfg::all()).take(cap_for(b.len()) + 1));
                (x, y)
            });
            h.push(hash(&r));
        }
    }
    let enc = guard(|| {
        let mut out = vec![];
        for r in parser(b, &Cfg::all()).take(cap_for(b.len()) + 1) {
            match r {
                Ok(m) => {
                    let r = m.encode(&mut out);
                    out.push(r.is_ok() as u8);
                    out.extend(m_text(&m).into_bytes());
                }
                Err(e) => out.extend(e.to_string().into_bytes()),
            }
        }
        out
    });
    h.push(hash(&enc.unwrap_or_default()));
    hash(&h)
}
#[allow(deprecated)]
fn m_text(m: &UlogMessage) -> String {
    match m {
        UlogMessage::LoggedData(d) => d.data.flatten().iter().map(|f| format!("{} {:?};", f.0, val(&f.1))).chain(d.data.fields.iter().map(|f| format!("{} {};", f.name, f.value))).collect(),
        m => format!("{m:?}"),
    }
}
fn c24_spaces(t: Tier) -> Vec<Space> {
    let mut v = silent_spaces(t);
    if t == Tier::Thorough {
        v.push(super::c_hist::words_space(4));
    }
    v
}
const C24_CAP: [u64; 2] = [60_000, 3_000_000];
fn c24_count(s: &Space, t: Tier) -> u64 {
    s.count.min(t.pick(C24_CAP[0], C24_CAP[1]))
}
/// Children of the plain build: case i is in block i % n, so that the blocks of neighbouring cases run side by side.
fn c24_blocks(n: u64, t: Tier) -> u64 {
    (n / 100).clamp(1, t.pick(16, 1024))
}
/// Child mode of the plain build: digests of some cases of a space as little-endian u64 on stdout.
fn digest_child(t: Tier, space: usize, k: u64, n: u64, nb: u64) {
    install_hook();
    let sp = c24_spaces(t);
    put_digests((k..n).step_by(nb as usize).map(|i| digest(&(sp[space].gen)(i))));
}
fn plain_digests(t: Tier, space: usize, k: u64, n: u64, nb: u64) -> Vec<u64> {
    let a = ["digest", if t == Tier::Quick { "quick" } else { "thorough" }, &space.to_string(), &k.to_string(), &n.to_string(), &nb.to_string()].map(String::from);
    get_digests(std::env::var_os("MC_PLAIN").expect("MC_PLAIN"), &a).1
}
fn same_in_both(t: Tier) -> Vec<Family> {
    c24_spaces(t)
        .into_iter()
        .enumerate()
        .map(|(k, s)| {
            let n = c24_count(&s, t);
            let nb = c24_blocks(n, t);
            let plain: Vec<OnceLock<Vec<u64>>> = (0..nb).map(|_| OnceLock::new()).collect();
            let show = s.show();
            let g = s.gen.clone();
            Family::new(
                &format!("{}-{k}", s.name),
                &format!("digest of items, flattened values and re-encoding under the plain and the thread_safe build: {}", s.what),
                n,
                move |i, ctx| {
                    let d = plain[(i % nb) as usize].get_or_init(|| plain_digests(t, k, i % nb, n, nb));
                    let d = *d.get((i / nb) as usize).expect("digests of the plain build");
                    let b = g(i);
                    let mine = digest(&b);
                    ctx.execs += 1;
                    ctx.transitions += 1;
                    ctx.state(&mine);
                    if d != mine {
                        return Err(Fail::new("items or re-encoding differ between the plain and the thread_safe build", hex(&b)));
                    }
                    Ok(())
                },
                show,
            )
        })
        .collect()
}

#[cfg(feature = "ts")]
mod cross {
    use super::*;
    /// Operations of one thread on its handle of a shared message.
    #[derive(Clone, Copy, Debug, PartialEq)]
    pub enum Op {
        Read,
        Encode,
        Clone,
        DropClone,
        Part,
    }
    pub const OPS: [Op; 5] = [Op::Read, Op::Encode, Op::Clone, Op::DropClone, Op::Part];

    fn logs() -> Vec<Vec<u8>> {
        rivals().into_iter().map(|x| x.0).chain([corpus::omnibus()]).collect()
    }
    /// A copy of a message made with the Clone the library offers (none for the message itself).
    fn copy(m: &UlogMessage) -> Option<UlogMessage> {
        Some(match m {
            UlogMessage::LoggedData(x) => UlogMessage::LoggedData(x.clone()),
            UlogMessage::Info(x) => UlogMessage::Info(x.clone()),
            UlogMessage::MultiInfo(x) => UlogMessage::MultiInfo(x.clone()),
            UlogMessage::AddSubscription(x) => UlogMessage::AddSubscription(x.clone()),
            UlogMessage::FormatDefinition(x) => UlogMessage::FormatDefinition(x.clone()),
            _ => return None,
        })
    }
    /// What one thread does with its handle of the shared message m.
    fn body(me: usize, m: Arc<UlogMessage>, ops: &[Op], s: &Sched) -> Result<(), String> {
        s.wait(me);
        let r = guard(|| {
            let want = obs(&m);
            let mut bytes = vec![];
            m.encode(&mut bytes).map_err(|e| e.to_string())?;
            let mut clones: Vec<UlogMessage> = vec![];
            let mut part: Option<yule_log::model::inst::Format> = None;
            for o in ops {
                s.point(me);
                match o {
                    Op::Read => {
                        for x in clones.iter().chain([&*m]) {
                            if obs(x) != want {
                                return Err(format!("reads {} instead of {}", rm::show(&obs(x)), rm::show(&want)));
                            }
                        }
                    }
                    Op::Encode => {
                        let mut b = vec![];
                        clones.last().unwrap_or(&*m).encode(&mut b).map_err(|e| e.to_string())?;
                        if b != bytes {
                            return Err(format!("encodes {} instead of {}", hex(&b), hex(&bytes)));
                        }
                    }
                    Op::Clone => clones.extend(copy(clones.last().unwrap_or(&*m))),
                    Op::DropClone => {
                        clones.pop();
                    }
                    Op::Part => {
                        if let UlogMessage::LoggedData(d) = &*m {
                            part = Some(d.data.clone());
                        }
                    }
                }
            }
            s.point(me);
            drop(m);
            if let Some(p) = part {
                let Obs::Data { inst, .. } = &want else { return Ok(()) };
                if instance(&p) != *inst {
                    return Err("a kept part changed when its message was dropped".into());
                }
            }
            for c in &clones {
                if obs(c) != want {
                    return Err("a kept clone changed when its message was dropped".into());
                }
            }
            Ok(())
        });
        s.end(me);
        r.map_err(|p| format!("panic: {p}"))?
    }
    pub fn families(t: Tier) -> Vec<Family> {
        let mut v = part("cross-threads", 2, t.pick(8, 40));
        if t == Tier::Thorough {
            v.insert(0, part("cross-threads-3", 3, 1).remove(0));
        }
        v
    }
    /// One set of switches for every distinct order in which two threads can pass n yield points each.
    fn turns(n: usize) -> Vec<Vec<usize>> {
        let mut seen = std::collections::HashSet::new();
        (0..1u64 << (2 * n))
            .map(|s| (0..2 * n).filter(|b| s >> b & 1 != 0).collect::<Vec<usize>>())
            .filter(|sw| {
                // what Sched makes of it: the thread of every segment between two points
                let (mut ran, mut cur, mut step, mut order) = ([0; 2], 0, 0, vec![]);
                while ran != [n + 1; 2] {
                    order.push(cur);
                    ran[cur] += 1;
                    if ran[cur] > n {
                        cur = 1 - cur;
                    } else {
                        if sw.contains(&step) && ran[1 - cur] <= n {
                            cur = 1 - cur;
                        }
                        step += 1;
                    }
                }
                seen.insert(order)
            })
            .collect()
    }
    fn part(name: &'static str, depth: usize, nm: usize) -> Vec<Family> {
        let progs = (OPS.len() as u64).pow(depth as u32);
        // all interleavings: thread 0 and 1 each have depth+1 yield points; a schedule says who is next
        let turns = turns(depth + 1);
        let scheds = turns.len() as u64;
        let ms: Vec<(usize, usize)> = logs().iter().enumerate().flat_map(|(l, b)| (0..run(b, &Cfg::all()).len()).map(move |i| (l, i))).collect();
        // spread over the messages; a single one is data with nested fields
        let data = |x: &&(usize, usize)| matches!(&run(&logs()[x.0], &Cfg::all())[x.1], Obs::Data { inst, .. } if inst.fields.iter().any(|f| matches!(f.2, Val::St(_))));
        let ms: Vec<(usize, usize)> = if nm == 1 { ms.iter().filter(data).take(1).copied().collect() } else { (0..nm).map(|k| ms[k * ms.len() / nm]).collect() };
        let turns = Arc::new(turns);
        let case = move |mut i: u64| {
            let m = corpus::digit(&mut i, nm as u64) as usize;
            let mut ops = vec![];
            for _ in 0..2 {
                let mut p = corpus::digit(&mut i, progs);
                ops.push((0..depth).map(|_| OPS[corpus::digit(&mut p, OPS.len() as u64) as usize]).collect::<Vec<_>>());
            }
            (m, ops, turns[i as usize].clone())
        };
        let ms2 = ms.clone();
        let case2 = case.clone();
        let show = move |i: u64| {
            let (m, o, s) = case2(i);
            format!("message {:?} threads {o:?} switches at {s:?}", ms2[m])
        };
        let show2 = show.clone();
        vec![
            Family::new(
                name,
                &format!("a message shared by two threads: every pair of programs of {depth} operations over {OPS:?}, every schedule of their yield points, ended by dropping the original, for {nm} messages"),
                nm as u64 * progs * progs * scheds,
                move |i, ctx| {
                    let (m, ops, sw) = case(i);
                    let (l, k) = ms[m];
                    let b = &logs()[l];
                    let Some(Ok(msg)) = parser(&b[..], &Cfg::all()).nth(k) else {
                        ctx.skipped += 1;
                        return Ok(());
                    };
                    let s = Sched::new(sw);
                    let msg = Arc::new(msg);
                    let other = msg.clone();
                    let (s1, s2) = (s.clone(), s.clone());
                    let (o1, o2) = (ops[0].clone(), ops[1].clone());
                    let h1 = std::thread::spawn(move || body(0, msg, &o1, &s1));
                    let h2 = std::thread::spawn(move || body(1, other, &o2, &s2));
                    ctx.execs += 1;
                    ctx.transitions += 2 * ops[0].len() as u64 + 2;
                    ctx.state(&i);
                    for h in [h1, h2] {
                        match h.join() {
                            Ok(Ok(())) => {}
                            Ok(Err(e)) => return Err(Fail::new(e, format!("{} log {}", show2(i), hex(b)))),
                            Err(_) => return Err(Fail::new("thread died", show2(i))),
                        }
                    }
                    Ok(())
                },
                show,
            ),
            Family::new(
                "moved",
                "every message of every log parsed here, moved to another thread, read and dropped there while the parser goes on",
                logs().len() as u64,
                |i, ctx| {
                    let b = logs()[i as usize].clone();
                    let want = run(&b, &Cfg::all());
                    let (tx, rx) = std::sync::mpsc::channel::<Result<UlogMessage, ()>>();
                    let h = std::thread::spawn(move || rx.into_iter().map(|r| r.map_or(Obs::Err, |m| obs(&m))).collect::<Vec<_>>());
                    for r in parser(&b[..], &Cfg::all()) {
                        let _ = tx.send(r.map_err(|_| ()));
                    }
                    drop(tx);
                    ctx.execs += 1;
                    ctx.transitions += want.len() as u64;
                    match h.join() {
                        Ok(got) if got == want => Ok(()),
                        Ok(got) => Err(Fail::new(format!("the other thread sees {got:?}"), hex(&b))),
                        Err(_) => Err(Fail::new("thread died", hex(&b))),
                    }
                },
                |i| hex(&logs()[i as usize]),
            ),
        ]
    }
}
fn c24_families(t: Tier) -> Vec<Family> {
    let mut v = same_in_both(t);
    #[cfg(feature = "ts")]
    v.extend(cross::families(t));
    if !cfg!(feature = "ts") {
        v.clear();
    }
    v
}

/// Child modes.
pub fn child() -> bool {
    let a: Vec<String> = std::env::args().collect();
    let t = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    match a.get(1).map(String::as_str) {
        Some("silent") => {
            silent_child(t(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap());
            true
        }
        Some("levels") => {
            level_child(t(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap());
            true
        }
        Some("digest") => {
            digest_child(t(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap());
            true
        }
        _ => false,
    }
}
pub fn c21_families(t: Tier) -> Vec<Family> {
    let pairs: Vec<Vec<usize>> = (0..6).flat_map(|a| (a..6).map(move |b| vec![a, b])).collect();
    let triples: Vec<Vec<usize>> = t.pick(vec![vec![0, 1, 4]], vec![vec![0, 1, 4], vec![1, 2, 5], vec![0, 3, 5], vec![4, 0, 2]]);
    let mut v = vec![same_thread("interleave-2", pairs, 0, 0), same_thread("interleave-3", triples, 1, t.pick(4, 5)), nested(t), threads_family(t), twins("twins", "with the same names, ids, keys and text lengths and minimally different contents", twin_logs(t)), twins("twin-names", "that differ in one name only (by case, prefix, extension, order of letters)", renamed_logs()), levels(t), wide_levels(t), silence(t)];
    let mut sp = corpus::all(Tier::Quick);
    sp.push(corpus::misfits());
    sp.push(super::c_hist::words_space(t.pick(3, 4)));
    v.extend(over(sp, again));
    v
}
pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C21",
            level: "model_checking",
            rule: "states = distinct schedules; each schedule is executed on real parsers and every parser's items and re-encoding are compared with its run alone",
            assumptions: vec!["scheduling points are read calls and items; data races below that granularity are excluded by Rust's type system (the only unsafe code of the crate is two slice casts)".into()],
            families: c21_families,
        },
        Check {
            id: "C24",
            level: "model_checking",
            rule: "states = distinct observation digests and schedules; each log is executed in both builds and the digests of all items and encodings compared; each schedule is executed on real threads",
            assumptions: vec!["thread_safe build and plain build are made from the same tree with the same compiler".into(), "std's Arc is trusted".into()],
            families: c24_families,
        },
    ]
}
