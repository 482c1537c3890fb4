//! C01 round trip, C02 faithful decode, C12 include options.
use super::*;
use crate::corpus;
use crate::wire::*;
use yule_log::encode::Encode;

fn c01(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg::all();
    let e = rm::expect(b, &cfg);
    if !e.canon {
        ctx.skipped += 1;
        return Ok(());
    }
    let ms = messages(b, &cfg).map_err(|p| Fail::new(format!("panic: {p}"), hex(b)))?;
    ctx.execs += 1;
    ctx.transitions += ms.len() as u64;
    ctx.states.extend(e.states.iter());
    let mut out = vec![];
    let mut start = 0;
    for (i, m) in ms.iter().enumerate() {
        let Some(m) = m else {
            return Err(Fail::new(format!("item {i} of a well-formed log is an error"), hex(b)));
        };
        let r = guard(|| m.encode(&mut out)).map_err(|p| Fail::new(format!("panic in encode: {p}"), hex(b)))?;
        if let Err(x) = r {
            return Err(Fail::new(format!("encoding item {i} failed: {x}"), hex(b)));
        }
        let end = *e.ends.get(i).unwrap_or(&0);
        if out.len() != end || out[start..] != b[start..end] {
            return Err(Fail::new(
                format!("item {i} re-encodes to {} instead of {}", clip(&hex(&out[start..]), 400), clip(&hex(&b[start.min(end)..end]), 400)),
                hex(b),
            ));
        }
        start = end;
    }
    ctx.outcome(&out);
    if out != b {
        return Err(Fail::new(format!("re-encoded {} of {} bytes", out.len(), b.len()), hex(b)));
    }
    Ok(())
}
fn c02(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    against_model(b, &Cfg::all(), ctx)?;
    against_model(b, &Cfg::default(), ctx)?;
    Ok(())
}
/// C12: the items under each option set equal the full items with exactly the named parts removed. The removal is done
/// here on the observations of the full run, independently of the model; the model is compared too.
fn strip(o: &Obs, c: &Cfg) -> Option<Obs> {
    fn padless(i: &mut Inst) {
        i.fields.retain(|f| !f.0.starts_with("_padding"));
        for f in &mut i.fields {
            match &mut f.2 {
                Val::St(x) => padless(x),
                Val::ArSt(v) => v.iter_mut().for_each(padless),
                _ => {}
            }
        }
    }
    let mut o = o.clone();
    match &mut o {
        Obs::Header { .. } if !c.hdr => return None,
        Obs::Data { inst, .. } => {
            if !c.ts {
                inst.fields.retain(|f| f.0 != "timestamp");
            }
            if !c.pad {
                padless(inst);
            }
        }
        Obs::Info { val, .. } | Obs::MultiInfo { val, .. } if !c.pad => match val {
            Val::St(x) => padless(x),
            Val::ArSt(v) => v.iter_mut().for_each(padless),
            _ => {}
        },
        _ => {}
    }
    Some(o)
}
fn c12(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    let full = run(b, &Cfg::all());
    for bits in 0..8 {
        let c = Cfg::bits(bits);
        let e = against_model(b, &c, ctx)?;
        let want: Vec<Obs> = full.iter().filter_map(|o| strip(o, &c)).collect();
        let got = run(b, &c);
        if want != got && !e.items.contains(&rm::Exp::Any) {
            let i = want.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
            return Err(Fail::new(
                format!("options {c:?}: item {i} is {} instead of {}", got.get(i).map_or("missing".into(), rm::show), want.get(i).map_or("nothing".into(), rm::show)),
                hex(b),
            ));
        }
    }
    Ok(())
}
#[derive(Clone, Debug)]
enum B {
    Hdr(bool),
    Ts(bool),
    Pad(bool),
    List(&'static [&'static str]),
}
/// Every sequence of builder calls: for each option the last call counts, in whatever order they stand.
pub fn builder_calls(t: Tier) -> Family {
    let ops = [B::Hdr(false), B::Hdr(true), B::Ts(false), B::Ts(true), B::Pad(false), B::Pad(true), B::List(&[]), B::List(&["m"]), B::List(&["w", "b", "w"])];
    let k = ops.len() as u64;
    let d = t.pick(4u32, 5);
    let nested = cat(&[
        header(),
        fmt("w:uint64_t timestamp;uint8_t[2] _padding0;b x;uint8_t v;"),
        fmt("b:uint8_t[3] _padding1;uint64_t timestamp;uint8_t q;"),
        fmt("m:b[2] y;uint64_t timestamp;uint8_t[4] _padding2;"),
        sub(0, 1, "w"),
        sub(1, 2, "m"),
        sub(0, 3, "b"),
        data(1, &corpus::fill(23)),
        data(2, &corpus::fill(36)),
        data(2, &corpus::fill(32)),
        data(3, &corpus::fill(12)),
        log(b'6', 1, b"text"),
    ]);
    let logs = [nested, corpus::omnibus()];
    let nseq: u64 = (0..=d).map(|j| k.pow(j)).sum();
    let seq = move |mut i: u64| -> Vec<B> {
        let mut len = 0;
        while i >= k.pow(len) {
            i -= k.pow(len);
            len += 1;
        }
        (0..len).map(|_| ops[corpus::digit(&mut i, k) as usize].clone()).collect()
    };
    let s2 = seq.clone();
    Family::new(
        "builder-calls",
        &format!("every sequence of at most {d} builder calls over {k} (each option on and off, three allow-lists), on two logs"),
        nseq * 2,
        move |i, ctx| {
            let b = &logs[(i % 2) as usize];
            let q = seq(i / 2);
            let mut cfg = Cfg::default();
            let got = guard(|| {
                let mut p = yule_log::builder::ULogParserBuilder::new(&b[..]);
                for o in &q {
                    p = match o {
                        B::Hdr(x) => p.include_header(*x),
                        B::Ts(x) => p.include_timestamp(*x),
                        B::Pad(x) => p.include_padding(*x),
                        B::List(l) => p.set_subscription_allow_list(l.iter().copied()),
                    };
                }
                let p = p.build().map_err(|e| e.to_string())?;
                Ok::<_, String>(p.take(cap_for(b.len()) + 1).map(|r| item(&r)).collect::<Vec<_>>())
            });
            for o in &q {
                match o {
                    B::Hdr(x) => cfg.hdr = *x,
                    B::Ts(x) => cfg.ts = *x,
                    B::Pad(x) => cfg.pad = *x,
                    B::List(l) => cfg = cfg.allow(l),
                }
            }
            let what = || format!("builder calls {q:?} log {}", hex(b));
            let e = rm::expect(b, &cfg);
            let got = match got {
                Ok(Ok(g)) => g,
                r => return Err(Fail::new(format!("no parser: {r:?}"), what())),
            };
            tally(&e, &got, ctx);
            ctx.state(&(i, "builder"));
            rm::compare(&e, &got).map_err(|w| Fail::new(w, what()))
        },
        move |i| format!("{:?}", s2(i / 2)),
    )
}
fn hist(t: Tier, q: usize, th: usize) -> Vec<corpus::Space> {
    vec![super::c_hist::words_space(t.pick(q, th))]
}
pub fn checks() -> Vec<Check> {
    let ass = |s: &[&str]| s.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    vec![
        Check {
            id: "C01",
            level: "model_checking",
            rule: "states = distinct reader-model states reached; every case is executed on the real parser and encoder and the bytes compared; cases outside the canonical domain are counted as outside_domain",
            assumptions: ass(&["the reference model's notion of canonical text and well-formed log is the ULog specification's", "bounded shapes, sizes and histories as listed per family"]),
            families: |t| over([corpus::all(t), hist(t, 4, 5)].concat(), c01),
        },
        Check {
            id: "C02",
            level: "model_checking",
            rule: "states = distinct reader-model states reached; every log of every family is executed on the real parser (all options on, and defaults) and each item compared bit-exactly with the reference model",
            assumptions: ass(&["the reference model (refmodel.rs) states the ULog specification correctly", "bounded shapes, sizes and value patterns as listed per family"]),
            families: |t| over([corpus::all(t), vec![corpus::misfits()], hist(t, 4, 5)].concat(), c02),
        },
        Check {
            id: "C12",
            level: "model_checking",
            rule: "states = distinct reader-model states; each log is executed under all 8 option sets, compared with the model and with the full run stripped of the named parts",
            assumptions: ass(&["bounded logs as listed per family"]),
            families: |t| {
                let mut f = over([corpus::all(t).into_iter().filter(|s| t == Tier::Thorough || s.name != "bits").collect(), vec![corpus::misfits()], super::c_fault::appended(t).into_iter().filter(|s| s.name == "versions").collect(), hist(t, 3, 4)].concat(), c12);
                f.push(builder_calls(t));
                f
            },
        },
    ]
}
