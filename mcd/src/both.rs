//! C24, derived streams: the same items from a build with and one without the thread_safe feature.
use crate::checks;
use crate::env;
use crate::rt::*;
use mc::checks::c_global::{at_levels, blocks_of, get_digests, put_digests, LEVELS};
use mc::engine::*;
use mc::readers::*;

use std::sync::OnceLock;

/// Cases of a family of C16 to C19: all, or every `step`th where `step` is prime to the sizes of all its parts.
struct Jobs {
    name: String,
    what: String,
    n: u64,
    step: u64,
    fam: Family,
}
impl Jobs {
    fn of(id: &str, fam: Family, cap: u64) -> Jobs {
        let prime = |x: u64| (2..x).take_while(|d| d * d <= x).all(|d| x % d != 0);
        let step = if fam.count <= cap { 1 } else { (fam.count / cap + 1..).find(|s| *s > 1 && prime(*s) && fam.count % s != 0).unwrap() };
        let name = format!("derived-{id}-{}", fam.name);
        let what = format!("{}{}", if step > 1 { format!("every {step}th case of: ") } else { String::new() }, fam.what);
        Jobs { name, what, n: fam.count.div_ceil(step), step, fam }
    }
    /// Digests of the streams that a case runs.
    fn tape(&self, i: u64) -> u64 {
        crate::drive::tape_on();
        let _ = (self.fam.run)(i * self.step, &mut Ctx::default());
        hash(&crate::drive::tape_off())
    }
    fn show(&self, i: u64) -> String {
        (self.fam.show)(i * self.step)
    }
}
fn jobs(t: Tier) -> Vec<Jobs> {
    let cap = t.pick(24_000, 300_000);
    let runs_streams = |f: &Family| {
        crate::drive::tape_on();
        let _ = (f.run)(0, &mut Ctx::default());
        !crate::drive::tape_off().is_empty()
    };
    checks::judged(t).into_iter().filter(|(_, f)| runs_streams(f)).map(|(id, f)| Jobs::of(id, f, cap)).collect()
}
/// What a stream yields; for one log in eight also over readers that split, end early or fail.
pub fn digest(p: &Prog, b: &[u8], ops: Option<&[Op]>) -> u64 {
    let mut h = vec![hash(&p.run(b, ops))];
    if hash(&b) % 8 == 0 {
        let b: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
        let mut c = Chunked::new(b);
        c.max = 3;
        c.every = 1;
        h.push(hash(&env::items(p, Box::new(c), ops, b.len())));
        h.push(hash(&env::items(p, Box::new(&b[..b.len() * 2 / 3]), ops, b.len())));
        let f = Failing { data: b, pos: 0, at: b.len() * 3 / 4, kind: std::io::ErrorKind::TimedOut, times: 2, failed: Default::default() };
        h.push(hash(&env::items(p, Box::new(f), ops, b.len())));
    }
    hash(&h)
}
/// Child mode of the plain build: digests of some cases as little-endian u64 on stdout.
pub fn child() -> bool {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) != Some("derived-digest") {
        return false;
    }
    install_hook();
    if let Some(l) = a.get(6) {
        mc::checks::c_hostile::install_logger(LEVELS[l.parse::<usize>().unwrap()]);
    }
    let t = if a[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let j = &jobs(t)[a[3].parse::<usize>().unwrap()];
    let (lo, hi): (u64, u64) = (a[4].parse().unwrap(), a[5].parse().unwrap());
    let step = a.get(7).map_or(1, |s| s.parse().unwrap());
    put_digests((lo..hi).step_by(step).map(|i| j.tape(i)));
    true
}
/// The plain build's digests of the cases k, k + nb, k + 2 nb, ... of job j.
fn plain(t: Tier, j: usize, k: u64, n: u64, nb: u64) -> Vec<u64> {
    let a = ["derived-digest", if t == Tier::Quick { "quick" } else { "thorough" }, &j.to_string(), &k.to_string(), &n.to_string(), "0", &nb.to_string()].map(String::from);
    get_digests(std::env::var_os("MC_PLAIN").expect("MC_PLAIN"), &a).1
}
pub fn families(t: Tier) -> Vec<Family> {
    if !cfg!(feature = "ts") {
        return vec![];
    }
    jobs(t)
        .into_iter()
        .enumerate()
        .map(|(k, j)| {
            let n = j.n;
            // neighbouring cases are in different blocks, so that the blocks' processes run side by side
            let nb = (n / 100).clamp(1, t.pick(16, 256));
            let plains: Vec<OnceLock<Vec<u64>>> = (0..nb).map(|_| OnceLock::new()).collect();
            let (name, what) = (j.name.clone(), j.what.clone());
            let j = std::sync::Arc::new(j);
            let j2 = j.clone();
            Family::new(
                &name,
                &format!("digest of a derived stream's items and error texts under the plain and the thread_safe build, for one log in eight also over readers that split, end early or fail: {what}"),
                n,
                move |i, ctx| {
                    let d = plains[(i % nb) as usize].get_or_init(|| plain(t, k, i % nb, n, nb));
                    let d = *d.get((i / nb) as usize).expect("digests of the plain build");
                    let mine = j.tape(i);
                    ctx.execs += 1;
                    ctx.transitions += 1;
                    ctx.state(&mine);
                    if d != mine {
                        return Err(Fail::new("items of the derived stream differ between the plain and the thread_safe build", crate::drive::taped(|| drop((j.fam.run)(i * j.step, &mut Ctx::default())))));
                    }
                    Ok(())
                },
                move |i| j2.show(i),
            )
        })
        .collect()
}
/// C21: the same items at every log level, and nothing printed.
pub fn levels(t: Tier) -> Family {
    let js = jobs(t);
    let names: Vec<&str> = js.iter().map(|j| j.name.as_str()).collect();
    let cap = t.pick(3_000, 200_000);
    // long arrays and formats take long at a log level that prints them
    let part = |k: usize, n: u64, cap: u64, ch: u64| blocks_of(&[n], cap, ch).into_iter().map(move |(_, lo, hi)| (k, lo, hi)).collect::<Vec<_>>();
    let blocks = js.iter().enumerate().flat_map(|(k, j)| if ["derived-C17-sizes", "derived-C18-far"].contains(&j.name.as_str()) { part(k, j.n, cap / 10, 20) } else { part(k, j.n, cap, 1000) }).collect();
    at_levels(
        "derived-levels",
        &format!("up to {cap} cases (a tenth of that for the long arrays and formats) of each of C24's {names:?} in a child process at each of the log levels Error to Trace, compared with logging off; the process writes nothing else"),
        blocks,
        "derived-digest",
        t,
        move |k, i| {
            let j = &jobs(t)[k];
            crate::drive::taped(|| drop((j.fam.run)(i * j.step, &mut Ctx::default())))
        },
    )
}
