//! Running a program against the model.
use crate::rt::*;
use mc::engine::*;
use mc::obs::*;
use mc::wire::*;

thread_local! {
    /// While on: digests of the streams run, and what was run, instead of a comparison with the model.
    static TAPE: std::cell::RefCell<Option<(Vec<u64>, Option<String>)>> = const { std::cell::RefCell::new(None) };
}
pub fn tape_on() {
    TAPE.with(|t| *t.borrow_mut() = Some(Default::default()));
}
pub fn tape_off() -> Vec<u64> {
    TAPE.with(|t| t.borrow_mut().take()).unwrap().0
}
/// Describes the streams that `f` runs.
pub fn taped(f: impl FnOnce()) -> String {
    TAPE.with(|t| *t.borrow_mut() = Some((vec![], Some(String::new()))));
    f();
    TAPE.with(|t| t.borrow_mut().take()).unwrap().1.unwrap()
}
/// Runs a log on a program and compares with the model of its stream.
pub fn against(p: &Prog, b: &[u8], ops: Option<&[Op]>, ctx: &mut Ctx) -> Result<(), Fail> {
    #[cfg(feature = "fixed")]
    if TAPE.with(|t| t.borrow().is_some()) {
        let d = crate::both::digest(p, b, ops);
        TAPE.with(|t| {
            let t = &mut *t.borrow_mut();
            let (v, s) = t.as_mut().unwrap();
            v.push(d);
            if let Some(s) = s {
                *s += &clip(&format!("program {} builder calls {ops:?} log {}\n", p.name, hex(b)), 20_000);
            }
        });
        return Ok(());
    }
    let mut set = Setup::default();
    let mut refused = None;
    let mut may_refuse = None;
    for (k, o) in ops.unwrap_or(&[]).iter().enumerate() {
        let asks = match o {
            Op::Add(n) => {
                set.extra.push(n.clone());
                true
            }
            Op::Extend(v) => {
                set.extra.extend(v.iter().cloned());
                if v.is_empty() && may_refuse.is_none() {
                    may_refuse = Some(k);
                }
                !v.is_empty()
            }
            Op::Fwd(f) => {
                set.fwd_subs = *f;
                *f
            }
        };
        if asks && !p.spec.forward && refused.is_none() {
            refused = Some(k);
        }
    }
    let input = || format!("program {} builder calls {:?} log {}", p.name, ops, hex(b));
    let got = p.run(b, ops);
    ctx.execs += 1;
    if !p.spec.forward {
        if let Run::Refused(k, kind) = &got {
            // an empty extension asks for nothing: refusing it is left open
            if *kind == Kind::Config && (refused == Some(*k) || (may_refuse == Some(*k) && refused.is_none_or(|r| *k < r))) {
                ctx.state(&(p.name, ops, *k));
                ctx.outcome(&got);
                return Ok(());
            }
        }
        if let Some(k) = refused {
            return Err(Fail::new(format!("builder call {k} must be a configuration error: {got:?}"), input()));
        }
    }
    let Run::Items(items) = got else {
        return Err(Fail::new(format!("no stream: {got:?}"), input()));
    };
    let w = expect(b, &p.spec, &set);
    if w.outside {
        ctx.skipped += 1;
        if let Some(x) = items.iter().find(|x| matches!(x, DObs::Panic(_) | DObs::Runaway | DObs::Late(_))) {
            return Err(Fail::new(clip(&format!("{x:?}"), 500), input()));
        }
        return Ok(());
    }
    ctx.transitions += w.states.len() as u64;
    for s in &w.states {
        ctx.states.insert(hash(&(p.name, *s, set.fwd_subs, &set.extra)));
    }
    ctx.outcome(&items);
    compare(&w, &items).map_err(|e| Fail::new(e, input()))
}

pub fn def_size(m: &mc::refmodel::Model, t: &Ty) -> usize {
    let one = match Prim::of(&t.base) {
        Some(p) => p.size(),
        None => m.formats.get(&t.base[1..]).map_or(0, |d| d.fields.iter().map(|f| def_size(m, &f.1)).sum()),
    };
    one * t.arr.unwrap_or(1)
}
/// A log: definitions, the top format, one subscription and data messages with the given bodies, each `cut` short.
pub fn one_log(defs: &[String], name: &str, bodies: impl Fn(usize) -> Vec<Vec<u8>>) -> Vec<u8> {
    let mut out = header();
    let mut m = mc::refmodel::Model::default();
    for d in defs {
        let b = fmt(d);
        let _ = m.step(b'F', &b[3..], &Cfg::all());
        out.extend_from_slice(&b);
    }
    out.extend(sub(0, 1, name));
    let n = m.formats.get(name).map_or(8, |d| d.fields.iter().map(|f| def_size(&m, &f.1)).sum());
    for b in bodies(n) {
        out.extend(data(1, &b));
    }
    out
}
