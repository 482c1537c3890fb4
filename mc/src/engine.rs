//! Exhaustive enumeration engine.
//!
//! A check is a list of families; a family is a finite space indexed 0..count, and running an index
//! executes that case on the real code and compares it with the oracle. Nothing is sampled.
//!
//! Process structure: `check` (supervisor) starts `worker` (the enumeration, 8 threads) as a child. Each
//! worker thread stores the index it is about to run in a progress file, so that a stack overflow, an
//! abort or a hang of the code under test is attributed to one case, which is then a violation with a
//! replay, not a broken check.
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, q: T, t: T) -> T {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

/// A failed case. `key` identifies the failing input for the known-findings file.
#[derive(Debug, Clone)]
pub struct Fail {
    pub key: String,
    pub what: String,
    pub input: String,
}
impl Fail {
    pub fn new(what: impl Into<String>, input: impl Into<String>) -> Fail {
        Fail { key: String::new(), what: what.into(), input: input.into() }
    }
    pub fn key(mut self, k: impl Into<String>) -> Fail {
        self.key = k.into();
        self
    }
}

/// Counters of one thread, merged at the end. All measured, none constant.
#[derive(Default)]
pub struct Ctx {
    pub states: HashSet<u64>,      // distinct reference-model states (or distinct cases, see `rule`)
    pub transitions: u64,          // messages / operations / environment answers executed on the real code
    pub execs: u64,                // complete executions of the real code compared with the oracle
    pub outcomes: HashSet<u64>,    // distinct observation sequences
    pub skipped: u64,              // generated cases outside the property's domain
    pub notes: BTreeMap<String, u64>,
}
impl Ctx {
    pub fn state<T: std::hash::Hash>(&mut self, t: &T) {
        self.states.insert(hash(t));
    }
    pub fn outcome<T: std::hash::Hash>(&mut self, t: &T) {
        if self.outcomes.len() < 4_000_000 {
            self.outcomes.insert(hash(t));
        }
    }
    pub fn note(&mut self, k: &str, n: u64) {
        if let Some(v) = self.notes.get_mut(k) {
            *v += n
        } else {
            self.notes.insert(k.to_string(), n);
        }
    }
}
pub fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub type RunFn = Box<dyn Fn(u64, &mut Ctx) -> Result<(), Fail> + Sync + Send>;
pub struct Family {
    pub name: String,
    pub what: String,
    pub count: u64,
    pub run: RunFn,
    /// describes case i for the evidence samples
    pub show: Box<dyn Fn(u64) -> String + Sync + Send>,
}
impl Family {
    pub fn new(
        name: &str,
        what: &str,
        count: u64,
        run: impl Fn(u64, &mut Ctx) -> Result<(), Fail> + Sync + Send + 'static,
        show: impl Fn(u64) -> String + Sync + Send + 'static,
    ) -> Family {
        Family { name: name.into(), what: what.into(), count, run: Box::new(run), show: Box::new(show) }
    }
}

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<String>,
    pub families: fn(Tier) -> Vec<Family>,
}

thread_local! {
    static IN_IMPL: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static THEIRS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
/// Runs code under test; a panic in it is reported as Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_IMPL.with(|x| x.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_IMPL.with(|x| x.set(was));
    r.map_err(|_| PANIC_MSG.with(|m| m.borrow().clone()))
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string().replace('\n', " ");
        if IN_IMPL.with(|x| x.get()) {
            PANIC_MSG.with(|p| *p.borrow_mut() = m);
        } else {
            // code under test that ran outside guard(): its panic is a finding, ours is not
            let f = info.location().map_or("", |l| l.file());
            let theirs = (f.contains("core/src/") && !f.contains("library/")) || f.ends_with("progs.rs");
            THEIRS.with(|t| t.set(theirs));
            if theirs {
                PANIC_MSG.with(|p| *p.borrow_mut() = m);
            } else {
                eprintln!("HARNESS PANIC: {m}");
            }
        }
    }));
}
/// After a panic outside guard(): the message if the code under test panicked.
fn their_panic() -> Option<String> {
    THEIRS.with(|t| t.replace(false)).then(|| format!("panic: {}", PANIC_MSG.with(|m| m.borrow().clone())))
}

pub fn hex(b: &[u8]) -> String {
    use std::fmt::Write as _;
    let mut s = String::with_capacity(b.len().min(3000) * 2 + 3);
    for x in b.iter().take(3000) {
        let _ = write!(s, "{x:02x}");
    }
    if b.len() > 3000 {
        s.push_str("...");
    }
    s
}
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn root() -> PathBuf {
    PathBuf::from(std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into()))
}

struct Known(Vec<(String, String)>); // (key, text)
fn known(id: &str) -> Known {
    let mut v = vec![];
    if let Ok(t) = fs::read_to_string(root().join("known_findings.txt")) {
        for l in t.lines() {
            // finding: property=C01 key=<key> <text>
            if let Some(r) = l.strip_prefix("finding: property=") {
                let mut it = r.splitn(3, ' ');
                let (p, k, t) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if p == id {
                    if let Some(k) = k.strip_prefix("key=") {
                        v.push((k.to_string(), t.to_string()));
                    }
                }
            }
        }
    }
    Known(v)
}

pub fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}
const SETUP_LIMIT_S: u64 = 150;
const CASE_LIMIT_S: u64 = 30;

fn write_replay(c: &Check, tier: Tier, fam: &str, idx: u64, f: &Fail) -> String {
    let dir = root().join("replays");
    let _ = fs::create_dir_all(&dir);
    let p = dir.join(format!("{}-{}-{}.txt", c.id, fam, idx));
    let t = format!(
        "property={}\ntier={}\nfamily={}\nindex={}\nkey={}\nwhat={}\ninput={}\nreplay: tools/check.sh replay {}\n",
        c.id,
        if tier == Tier::Quick { "quick" } else { "thorough" },
        fam,
        idx,
        f.key,
        f.what,
        f.input,
        p.display()
    );
    let _ = fs::write(&p, t);
    p.display().to_string()
}

#[allow(clippy::too_many_arguments)]
fn evidence(c: &Check, tier: Tier, wall: f64, ctx: &Ctx, fams: &[(String, String, u64, u64)], samples: &[String], violations: u64, complete: bool, knownhits: &BTreeMap<String, u64>) {
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let cases: u64 = fams.iter().map(|f| f.3).sum();
    let mut cov = String::new();
    match c.level {
        "model_checking" => cov.push_str(&format!(
            "\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, ",
            ctx.states.len(), ctx.transitions, ctx.execs
        )),
        _ => cov.push_str(&format!(
            "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"environment_steps\": {}, ",
            ctx.execs, ctx.states.len(), ctx.transitions
        )),
    }
    cov.push_str(&format!("\"cases_enumerated\": {}, \"distinct_outcomes\": {}, \"outside_domain\": {}, \"exhaustive\": {}, \"rule\": {}, ",
        cases, ctx.outcomes.len(), ctx.skipped, complete, jstr(c.rule)));
    cov.push_str("\"families\": [");
    for (i, (n, w, total, done)) in fams.iter().enumerate() {
        if i > 0 { cov.push_str(", "); }
        cov.push_str(&format!("{{\"name\": {}, \"space\": {}, \"size\": {}, \"explored\": {}}}", jstr(n), jstr(w), total, done));
    }
    cov.push_str("], \"notes\": {");
    for (i, (k, v)) in ctx.notes.iter().enumerate() {
        if i > 0 { cov.push_str(", "); }
        cov.push_str(&format!("{}: {}", jstr(k), v));
    }
    cov.push_str("}, \"known_findings_seen\": {");
    for (i, (k, v)) in knownhits.iter().enumerate() {
        if i > 0 { cov.push_str(", "); }
        cov.push_str(&format!("{}: {}", jstr(k), v));
    }
    cov.push_str("}, \"samples\": [");
    for (i, s) in samples.iter().enumerate() {
        if i > 0 { cov.push_str(", "); }
        cov.push_str(&jstr(s));
    }
    cov.push(']');
    let ass = c.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(", ");
    let t = format!(
        "{{\"property\": {}, \"tier\": \"{}\", \"seed\": {}, \"level\": {}, \"coverage\": {{{}}}, \"assumptions\": [{}], \"wall_s\": {:.3}, \"violations\": {}}}\n",
        jstr(c.id), if tier == Tier::Quick {"quick"} else {"thorough"}, seed, jstr(c.level), cov, ass, wall, violations
    );
    let dir = root().join("evidence");
    let _ = fs::create_dir_all(&dir);
    if let Err(e) = fs::write(dir.join(format!("{}.json", c.id)), t) {
        eprintln!("cannot write evidence: {e}");
        exit(2);
    }
}

/// The enumeration proper. Exit code 0 held, 1 violation, 2 harness error, 10 hang (supervisor attributes it).
pub fn worker(c: &Check, tier: Tier, progress: &Path) -> i32 {
    install_hook();
    let t0 = Instant::now();
    let budget = Duration::from_secs(
        std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(tier.pick(700, 6000)),
    );
    let ready = Arc::new(AtomicBool::new(false));
    {
        let ready = ready.clone();
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(SETUP_LIMIT_S));
            if !ready.load(SeqCst) {
                exit(11);
            }
        });
    }
    let fams = match catch_unwind(|| (c.families)(tier)) {
        Ok(f) => f,
        Err(_) => {
            let Some(w) = their_panic() else { return 2 };
            return setup_failed(c, tier, t0, w);
        }
    };
    ready.store(true, SeqCst);
    eprintln!("{}: cases prepared in {:.1}s", c.id, t0.elapsed().as_secs_f64());
    let n = threads();
    let pf = Arc::new(fs::OpenOptions::new().create(true).truncate(true).write(true).open(progress).expect("progress file"));
    let kn = known(c.id);
    let mut total = Ctx::default();
    let mut fam_rows = vec![];
    let mut samples = vec![];
    let mut known_hits: BTreeMap<String, u64> = BTreeMap::new();
    let mut complete = true;
    // per thread: (start in ms since t0) + 1, 0 when idle
    let started: Arc<Vec<AtomicU64>> = Arc::new((0..n).map(|_| AtomicU64::new(0)).collect());
    {
        let started = started.clone();
        let pf = pf.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let now = t0.elapsed().as_millis() as u64;
            for (i, s) in started.iter().enumerate() {
                let v = s.load(SeqCst);
                if v != 0 && now.saturating_sub(v - 1) > CASE_LIMIT_S * 1000 {
                    // mark the hanging slot: byte 16 of its record
                    let _ = pf.write_all_at(&[1], (i * 32 + 16) as u64);
                    exit(10);
                }
            }
        });
    }
    for (fi, fam) in fams.iter().enumerate() {
        let ft = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let harness_err = AtomicBool::new(false);
        let first: Mutex<Option<(u64, Fail)>> = Mutex::new(None);
        let merged: Mutex<Vec<Ctx>> = Mutex::new(vec![]);
        let kh: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
        let chunk = (fam.count / (n as u64 * 32)).clamp(1, 4096);
        std::thread::scope(|sc| {
            for t in 0..n {
                let (next, done, stop, harness_err, first, merged, kh, pf, started, kn) =
                    (&next, &done, &stop, &harness_err, &first, &merged, &kh, &pf, &started, &kn);
                std::thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn_scoped(sc, move || {
                        let mut ctx = Ctx::default();
                        let mut local = 0u64;
                        'o: loop {
                            let a = next.fetch_add(chunk, SeqCst);
                            if a >= fam.count {
                                break;
                            }
                            for i in a..(a + chunk).min(fam.count) {
                                if stop.load(SeqCst) {
                                    break 'o;
                                }
                                if local % 64 == 0 && t0.elapsed() > budget {
                                    break 'o;
                                }
                                let mut rec = [0u8; 17];
                                rec[..8].copy_from_slice(&(fi as u64 + 1).to_le_bytes());
                                rec[8..16].copy_from_slice(&i.to_le_bytes());
                                let _ = pf.write_all_at(&rec, (t * 32) as u64);
                                started[t].store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
                                crate::alloc::reset();
                                let r = catch_unwind(AssertUnwindSafe(|| (fam.run)(i, &mut ctx)));
                                started[t].store(0, SeqCst);
                                local += 1;
                                match r {
                                    Ok(Ok(())) => {}
                                    Ok(Err(f)) => {
                                        if !f.key.is_empty() && kn.0.iter().any(|k| k.0 == f.key) {
                                            *kh.lock().unwrap().entry(f.key.clone()).or_insert(0) += 1;
                                            continue;
                                        }
                                        let mut g = first.lock().unwrap();
                                        if g.as_ref().is_none_or(|x| i < x.0) {
                                            *g = Some((i, f));
                                        }
                                        stop.store(true, SeqCst);
                                    }
                                    Err(_) if THEIRS.with(|t| t.get()) => {
                                        let w = their_panic().unwrap_or_default();
                                        let mut g = first.lock().unwrap();
                                        if g.as_ref().is_none_or(|x| i < x.0) {
                                            *g = Some((i, Fail::new(w, (fam.show)(i))));
                                        }
                                        stop.store(true, SeqCst);
                                    }
                                    Err(_) => {
                                        eprintln!("harness panic in {} #{i}", fam.name);
                                        harness_err.store(true, SeqCst);
                                        stop.store(true, SeqCst);
                                    }
                                }
                            }
                        }
                        let _ = pf.write_all_at(&[0u8; 17], (t * 32) as u64);
                        done.fetch_add(local, SeqCst);
                        merged.lock().unwrap().push(ctx);
                    })
                    .expect("spawn");
            }
        });
        for m in merged.into_inner().unwrap() {
            total.states.extend(m.states);
            total.outcomes.extend(m.outcomes);
            total.transitions += m.transitions;
            total.execs += m.execs;
            total.skipped += m.skipped;
            for (k, v) in m.notes {
                *total.notes.entry(k).or_insert(0) += v;
            }
        }
        for (k, v) in kh.into_inner().unwrap() {
            *known_hits.entry(k).or_insert(0) += v;
        }
        let d = done.load(SeqCst);
        if fam.count > 0 {
            samples.push(format!("{}[{}]: {}", fam.name, fam.count / 2, (fam.show)(fam.count / 2)));
        }
        if d < fam.count {
            complete = false;
        }
        fam_rows.push((fam.name.clone(), fam.what.clone(), fam.count, d));
        eprintln!("{} {}: {}/{} cases in {:.1}s", c.id, fam.name, d, fam.count, ft.elapsed().as_secs_f64());
        if harness_err.load(SeqCst) {
            return 2;
        }
        if let Some((i, f)) = first.into_inner().unwrap() {
            evidence(c, tier, t0.elapsed().as_secs_f64(), &total, &fam_rows, &samples, 1, false, &known_hits);
            let p = write_replay(c, tier, &fam.name, i, &f);
            println!("{}: {}", c.id, clip(&f.what, 2000));
            println!("input: {}", clip(&f.input, 2000));
            println!("VIOLATION property={} replay={}", c.id, p);
            return 1;
        }
    }
    // A listed finding that no longer shows is only a note: the check itself passes.
    for (k, t) in &kn.0 {
        if known_hits.contains_key(k) {
            println!("KNOWN-FINDING: property={} {} [{}; {} cases]", c.id, t, k, known_hits[k]);
        } else {
            eprintln!("note: known finding {k} of {} did not occur in this run", c.id);
        }
    }
    evidence(c, tier, t0.elapsed().as_secs_f64(), &total, &fam_rows, &samples, 0, complete, &known_hits);
    println!(
        "{}: held; {} cases, {} executions, {} steps, {} states, {} distinct outcomes, complete={}, {:.1}s",
        c.id,
        fam_rows.iter().map(|f| f.3).sum::<u64>(),
        total.execs,
        total.transitions,
        total.states.len(),
        total.outcomes.len(),
        complete,
        t0.elapsed().as_secs_f64()
    );
    0
}
pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut e = n;
        while !s.is_char_boundary(e) {
            e -= 1
        }
        format!("{}...", &s[..e])
    }
}

fn one(c: &Check, tier: Tier, fam: &str, idx: u64) -> i32 {
    install_hook();
    std::thread::spawn(|| {
        std::thread::sleep(Duration::from_secs(CASE_LIMIT_S));
        exit(10);
    });
    let fams = (c.families)(tier);
    let Some(f) = fams.into_iter().find(|f| f.name == fam) else {
        eprintln!("no family {fam}");
        return 2;
    };
    println!("case {}[{}]: {}", f.name, idx, clip(&(f.show)(idx), 4000));
    let h = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
        let mut ctx = Ctx::default();
        match catch_unwind(AssertUnwindSafe(|| (f.run)(idx, &mut ctx))) {
            Ok(r) => r,
            Err(e) => match their_panic() {
                Some(w) => Err(Fail::new(w, (f.show)(idx))),
                None => std::panic::resume_unwind(e),
            },
        }
    });
    match h.expect("spawn").join() {
        Ok(Ok(())) => {
            println!("held");
            0
        }
        Ok(Err(f)) => {
            println!("key={} what={}\ninput={}", f.key, f.what, f.input);
            1
        }
        Err(_) => 2,
    }
}

/// Entry point of the binaries: check|worker|one|replay|list.
pub fn main(checks: &[Check]) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let usage = || -> ! {
        eprintln!("usage: check ID TIER | worker ID TIER FILE | one ID TIER FAMILY INDEX | replay FILE | list TIER");
        exit(2)
    };
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let get = |id: &str| checks.iter().find(|c| c.id == id).unwrap_or_else(|| {
        eprintln!("unknown check {id}");
        exit(2)
    });
    // the growth and amplification monitors are worth nothing without the counting allocator
    let before = crate::alloc::live();
    let v = std::hint::black_box(vec![1u8; 1 << 20]);
    if crate::alloc::live() - before < 1 << 20 {
        eprintln!("the counting allocator is not in place");
        exit(2)
    }
    drop(v);
    match a.get(1).map(String::as_str) {
        Some("list") => {
            for c in checks {
                for f in (c.families)(tier(a.get(2).map_or("quick", |s| s))) {
                    println!("{} {} {} - {}", c.id, f.name, f.count, f.what);
                }
            }
            exit(0)
        }
        Some("worker") if a.len() == 5 => exit(worker(get(&a[2]), tier(&a[3]), Path::new(&a[4]))),
        Some("one") if a.len() == 6 => exit(one(get(&a[2]), tier(&a[3]), &a[4], a[5].parse().unwrap_or(0))),
        Some("replay") if a.len() == 3 => {
            let t = fs::read_to_string(&a[2]).unwrap_or_default();
            let g = |k: &str| t.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
            exit(one(get(&g("property")), tier(&g("tier")), &g("family"), g("index").parse().unwrap_or(0)))
        }
        Some("check") if a.len() == 4 => exit(supervise(get(&a[2]), tier(&a[3]), &a[3])),
        _ => usage(),
    }
}

/// The logs the cases are made of could not even be prepared, because the code under test failed on them.
fn setup_failed(c: &Check, tier: Tier, t0: Instant, w: String) -> i32 {
    let f = Fail::new(format!("while preparing the cases: {w}"), "run the check itself to see it again");
    let row = [("setup".to_string(), "preparation of the cases".to_string(), 1, 1)];
    evidence(c, tier, t0.elapsed().as_secs_f64(), &Ctx { execs: 1, ..Ctx::default() }, &row, &[], 1, false, &BTreeMap::new());
    println!("{}: {}", c.id, clip(&f.what, 2000));
    println!("VIOLATION property={} replay={}", c.id, write_replay(c, tier, "setup", 0, &f));
    1
}

fn supervise(c: &Check, tier: Tier, tname: &str) -> i32 {
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", c.id, std::process::id()));
    fs::create_dir_all(&dir).expect("scratch");
    let prog = dir.join("progress");
    let exe = std::env::current_exe().expect("exe");
    let t0 = Instant::now();
    let out = Command::new(&exe)
        .args(["worker", c.id, tname])
        .arg(&prog)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .output()
        .expect("worker");
    let code = out.status.code();
    let _ = std::io::stderr().write_all(tail(&out.stderr));
    let r = match code {
        Some(c @ (0 | 1 | 2)) => {
            // The code under test must be silent: everything a worker prints is the engine's own.
            let _ = std::io::stdout().write_all(&out.stdout);
            c
        }
        _ => {
            // abort, signal or hang: find the case
            let data = fs::read(&prog).unwrap_or_default();
            use std::os::unix::process::ExitStatusExt;
            if code == Some(11) || (data.is_empty() && matches!(out.status.signal(), Some(4 | 6 | 7 | 8 | 11))) {
                let w = if code == Some(11) { format!("no answer within {SETUP_LIMIT_S} s") } else { format!("process died ({})", out.status) };
                let _ = fs::remove_dir_all(&dir);
                return setup_failed(c, tier, t0, w);
            }
            let fams = (c.families)(tier);
            let mut cand = vec![];
            for rec in data.chunks(32) {
                if rec.len() >= 16 {
                    let f = u64::from_le_bytes(rec[..8].try_into().unwrap());
                    let i = u64::from_le_bytes(rec[8..16].try_into().unwrap());
                    let hung = rec.get(16) == Some(&1);
                    if f > 0 && (f as usize) <= fams.len() {
                        cand.push((hung, f as usize - 1, i));
                    }
                }
            }
            cand.sort_by_key(|x| (!x.0, x.1, x.2));
            let mut res = 2;
            for (_, f, i) in cand {
                let o = Command::new(&exe)
                    .args(["one", c.id, tname, &fams[f].name, &i.to_string()])
                    .stdin(Stdio::null())
                    .output()
                    .expect("one");
                let oc = o.status.code();
                if !matches!(oc, Some(0 | 2)) {
                    let what = match oc {
                        Some(10) => format!("no answer within {CASE_LIMIT_S} s (hang)"),
                        Some(1) => String::from_utf8_lossy(&o.stdout).to_string(),
                        _ => format!(
                            "process died ({}): {}",
                            o.status,
                            clip(&String::from_utf8_lossy(&o.stderr).replace('\n', " "), 400)
                        ),
                    };
                    let fail = Fail::new(what, (fams[f].show)(i));
                    let p = write_replay(c, tier, &fams[f].name, i, &fail);
                    evidence(c, tier, t0.elapsed().as_secs_f64(), &Ctx { execs: 1, ..Ctx::default() },
                        &[(fams[f].name.clone(), fams[f].what.clone(), fams[f].count, i)], &[(fams[f].show)(i)], 1, false, &BTreeMap::new());
                    println!("{}: {}", c.id, fail.what);
                    println!("input: {}", clip(&fail.input, 2000));
                    println!("VIOLATION property={} replay={}", c.id, p);
                    res = 1;
                    break;
                }
            }
            if res == 2 {
                eprintln!("worker ended with {} and no case reproduces it", out.status);
            }
            res
        }
    };
    let _ = fs::remove_dir_all(&dir);
    r
}
fn tail(b: &[u8]) -> &[u8] {
    &b[b.len().saturating_sub(8000)..]
}
