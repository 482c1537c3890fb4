//! C25: programs generated over a grid of derive inputs; each is compiled and run on logs made from what it states.
use crate::drive::against;
use crate::rt::*;
use mc::corpus::fill_from;
use mc::engine::*;
use mc::obs::*;
use mc::wire::*;
use std::sync::Arc;

fn ty_text(w: &W, k: usize, defs: &mut Vec<String>, n: &mut usize) -> String {
    let nest = |s: &SSpec, defs: &mut Vec<String>, n: &mut usize| {
        *n += 1;
        let name = format!("nested_{n}");
        let body = body_text(s, k, defs, n);
        defs.push(format!("{name}:{body}"));
        name
    };
    match w {
        W::Sc(p) => p.name().to_string(),
        W::Ar(p) => format!("{}[{}]", p.name(), k + 1),
        W::St(s) => nest(s, defs, n),
        W::ArSt(s) => format!("{}[{}]", nest(s, defs, n), k + 1),
    }
}
fn body_text(s: &SSpec, k: usize, defs: &mut Vec<String>, n: &mut usize) -> String {
    s.fields.iter().map(|f| format!("{} {};", ty_text(&f.w, k, defs, n), f.name)).collect()
}
/// Formats for every mapped message: shape 0 as stated, 1 reversed with an extra, 2 without the optional fields,
/// 3 without the last required field.
fn formats(e: &ESpec, shape: usize) -> Vec<String> {
    let (mut defs, mut n) = (vec![], 0);
    let mut done: Vec<&str> = vec![];
    for m in &e.msgs {
        if done.contains(&m.sub.as_str()) {
            continue;
        }
        done.push(&m.sub);
        // several instances share one format: all their fields
        let mut fs: Vec<FSpec> = vec![];
        for x in e.msgs.iter().filter(|x| x.sub == m.sub) {
            for f in &x.s.fields {
                if !fs.iter().any(|g| g.name == f.name) {
                    fs.push(f.clone());
                }
            }
        }
        if shape == 2 {
            fs.retain(|f| !f.opt);
        }
        if shape == 3 {
            if let Some(i) = fs.iter().rposition(|f| !f.opt && f.name != "timestamp") {
                fs.remove(i);
            }
        }
        let mut parts: Vec<String> = fs.iter().map(|f| format!("{} {};", ty_text(&f.w, shape, &mut defs, &mut n), f.name)).collect();
        if !fs.iter().any(|f| f.name == "timestamp") {
            parts.push("uint64_t timestamp;".into());
        }
        if shape == 1 {
            parts.reverse();
            parts.insert(1, "uint16_t extra_field_zz;".into());
        }
        defs.push(format!("{}:{}", m.sub, parts.concat()));
    }
    defs
}
fn logs(p: &Prog) -> Vec<Vec<u8>> {
    let mut out = vec![];
    // formats come from the statement; the known deviation, if any, is fed the same logs
    let e = &p.spec;
    // decoys: names the program must not map
    let mut decoys: Vec<String> = vec!["other_message".into()];
    for d in &p.decoys {
        if !e.msgs.iter().any(|m| m.sub == *d) && !decoys.contains(&d.to_string()) {
            decoys.push(d.to_string());
        }
    }
    for shape in 0..4 {
        let mut b = header();
        let mut m = mc::refmodel::Model::default();
        let put = |b: &mut Vec<u8>, m: &mut mc::refmodel::Model, x: Vec<u8>| {
            let _ = m.step(x[2], &x[3..], &Cfg::all());
            b.extend(x);
        };
        let fs = formats(e, shape);
        for d in &fs {
            put(&mut b, &mut m, fmt(d));
        }
        for d in &decoys {
            put(&mut b, &mut m, fmt(&format!("{d}:uint64_t timestamp;uint8_t x;")));
        }
        put(&mut b, &mut m, info("char[2] k", b"hi"));
        let mut id = 1;
        let mut names: Vec<(String, u8)> = vec![];
        for x in &e.msgs {
            for k in [x.multi, x.multi.wrapping_add(1), 0] {
                if !names.contains(&(x.sub.clone(), k)) {
                    names.push((x.sub.clone(), k));
                }
            }
        }
        names.extend(decoys.iter().map(|d| (d.clone(), 0)));
        for (n, k) in &names {
            put(&mut b, &mut m, sub(*k, id, n));
            let size: usize = m.formats.get(n).map_or(8, |d| d.fields.iter().map(|f| crate::drive::def_size(&m, &f.1)).sum());
            put(&mut b, &mut m, data(id, &fill_from(size, (id as u8).wrapping_mul(37))));
            put(&mut b, &mut m, log(b'6', 3, b"text"));
            id += 1;
        }
        // again after all subscriptions are known
        for i in 1..id {
            let n = &names[i as usize - 1].0;
            let size: usize = m.formats.get(n).map_or(8, |d| d.fields.iter().map(|f| crate::drive::def_size(&m, &f.1)).sum());
            put(&mut b, &mut m, data(i, &fill_from(size, (i as u8).wrapping_mul(11).wrapping_add(5))));
        }
        out.push(b);
    }
    out
}
pub fn families(progs: Vec<Prog>) -> Vec<Family> {
    let n = progs.len() as u64;
    let progs = Arc::new(progs);
    let p2 = progs.clone();
    let settings: Vec<Option<Vec<Op>>> = vec![None, Some(vec![]), Some(vec![Op::Fwd(true), Op::Add("other_message".into())])];
    vec![Family::new(
        "programs",
        &format!("{n} generated programs, each compiled and run through stream() and builder() on 4 logs made from the names, instances and fields it states, with decoys"),
        n * 12,
        move |i, ctx| {
            let p = &progs[(i / 12) as usize];
            let ops = &settings[(i / 4 % 3) as usize];
            let b = &logs(p)[(i % 4) as usize];
            against(p, b, ops.as_deref(), ctx).map_err(|f| {
                if let Some((key, spec)) = &p.alt {
                    let q = Prog { spec: spec.clone(), ..p.clone() };
                    if against(&q, b, ops.as_deref(), &mut Ctx::default()).is_ok() {
                        return f.key(*key);
                    }
                }
                f
            })
        },
        move |i| p2[(i / 12) as usize].name.to_string(),
    )]
}
pub fn check(families: fn(Tier) -> Vec<Family>) -> Check {
    Check {
        id: "C25",
        level: "model_checking",
        rule: "states = distinct model states per program; programs = the grid emitted by tools/gen_programs.py; each is compiled with the derives and its stream compared with the model",
        assumptions: vec!["the grid of names, positions, attributes, types and placements in tools/gen_programs.py".into()],
        families,
    }
}
