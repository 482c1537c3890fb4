//! C22: text, scalar, flattened and printed views.
use super::*;
use crate::corpus::{self, digit, fill};
use crate::wire::*;
use yule_log::model::inst::FieldValue;
use yule_log::model::msg::UlogMessage;
use yule_log::model::{CChar, CCharSlice};

/// UTF-8 decoding with replacement, written out (maximal subparts, as the Unicode standard recommends).
fn lossy(b: &[u8]) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0..=0x7f => {
                s.push(c as char);
                i += 1;
                continue;
            }
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee..=0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => {
                s.push('\u{fffd}');
                i += 1;
                continue;
            }
        };
        let mut cp = (c as u32) & (0x3f >> n);
        let mut j = 0;
        while j < n {
            let Some(&x) = b.get(i + 1 + j) else { break };
            let (l, h) = if j == 0 { (lo, hi) } else { (0x80, 0xbf) };
            if x < l || x > h {
                break;
            }
            cp = cp << 6 | (x as u32 & 0x3f);
            j += 1;
        }
        if j == n {
            s.push(char::from_u32(cp).unwrap_or('\u{fffd}'));
        } else {
            s.push('\u{fffd}');
        }
        i += 1 + j;
    }
    s
}
fn text_case(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    let v: Vec<CChar> = b.iter().map(|x| CChar(*x)).collect();
    ctx.execs += 1;
    ctx.transitions += 8;
    ctx.state(&b);
    let l = lossy(b);
    let trimmed = l.trim_end_matches('\0').to_string();
    let end = b.iter().rposition(|x| *x != 0).map_or(0, |p| p + 1);
    let r = guard(|| {
        let s: &[CChar] = &v;
        [
            (CCharSlice::to_string_lossy(s) == l, "slice text"),
            (CCharSlice::to_string_lossy(&v) == l, "vector text"),
            (CCharSlice::as_bytes(s) == b, "slice bytes"),
            (CCharSlice::as_bytes(&v) == b, "vector bytes"),
            (s.trim_end_nul().iter().map(|c| c.0).eq(b[..end].iter().copied()), "slice trim"),
            (v.trim_end_nul().iter().map(|c| c.0).eq(b[..end].iter().copied()), "vector trim"),
            (s.to_string_lossy_trimmed() == trimmed, "slice trimmed text"),
            (v.to_string_lossy_trimmed() == trimmed, "vector trimmed text"),
            (FieldValue::ArrayChar(v.clone()).to_string() == format!("\"{l}\""), "printed value"),
        ]
        .into_iter()
        .find(|x| !x.0)
        .map(|x| x.1)
    });
    match r {
        Ok(None) => Ok(()),
        Ok(Some(w)) => Err(Fail::new(format!("{w} of {b:02x?} is wrong"), hex(b))),
        Err(p) => Err(Fail::new(format!("panic: {p}"), hex(b))),
    }
}
fn sc(p: Prim, b: u64) -> String {
    match p {
        Prim::U8 | Prim::U16 | Prim::U32 | Prim::U64 => b.to_string(),
        Prim::I8 => (b as u8 as i8).to_string(),
        Prim::I16 => (b as u16 as i16).to_string(),
        Prim::I32 => (b as u32 as i32).to_string(),
        Prim::I64 => (b as i64).to_string(),
        Prim::F32 => f32::from_bits(b as u32).to_string(),
        Prim::F64 => f64::from_bits(b).to_string(),
        Prim::Bool => (b != 0).to_string(),
        Prim::Char => {
            if b < 128 {
                (b as u8 as char).to_string()
            } else {
                format!("\\x{b:02X}")
            }
        }
    }
}
fn inst_name(i: &Inst) -> String {
    match i.multi {
        None => i.name.clone(),
        Some(m) => format!("{}.{m:02}", i.name),
    }
}
fn shown(v: &Val, quote: bool) -> String {
    match v {
        Val::Sc(Prim::Char, b) if quote => format!("'{}'", sc(Prim::Char, *b)),
        Val::Sc(p, b) => sc(*p, *b),
        Val::Ar(Prim::Char, a) => format!("\"{}\"", lossy(&a.iter().map(|x| *x as u8).collect::<Vec<_>>())),
        Val::Ar(p, a) => format!("[{}]", a.iter().map(|x| sc(*p, *x)).collect::<Vec<_>>().join(", ")),
        Val::St(i) => format!("{{{}}}", inst_name(i)),
        Val::ArSt(a) => format!("[{}]", a.iter().map(|i| format!("{{{}}}", inst_name(i))).collect::<Vec<_>>().join(", ")),
    }
}
fn leaves(path: &str, i: &Inst, out: &mut Vec<(String, Val)>) {
    for (n, _, v) in &i.fields {
        let p = format!("{path}/{n}");
        match v {
            Val::Sc(..) => out.push((p, v.clone())),
            Val::Ar(q, a) => out.extend(a.iter().enumerate().map(|(k, x)| (format!("{p}.{k:02}"), Val::Sc(*q, *x)))),
            Val::St(s) => leaves(&p, s, out),
            Val::ArSt(a) => a.iter().enumerate().for_each(|(k, s)| leaves(&format!("{p}.{k:02}"), s, out)),
        }
    }
}
fn check_fields(f: &yule_log::model::inst::Format, i: &Inst) -> Result<(), String> {
    for (fld, (n, _, v)) in f.fields.iter().zip(&i.fields) {
        let many = matches!(v, Val::Ar(..) | Val::ArSt(..));
        if (fld.r#type.is_array(), fld.r#type.is_scalar()) != (many, !many) {
            return Err(format!("the type of {n} is said to be array: {}, scalar: {}", fld.r#type.is_array(), fld.r#type.is_scalar()));
        }
        let want = shown(v, true);
        let got = fld.value.to_string();
        if got != want {
            return Err(format!("value of {n} prints as {got:?} instead of {want:?}"));
        }
        let got = fld.value.to_scalars().map(|x| x.iter().map(val).collect::<Vec<_>>());
        let want = match v {
            Val::Ar(p, a) => Some(a.iter().map(|x| Val::Sc(*p, *x)).collect()),
            Val::ArSt(a) => Some(a.iter().map(|x| Val::St(Box::new(x.clone()))).collect()),
            _ => None,
        };
        if got != want {
            return Err(format!("scalars of {n} are {got:?} instead of {want:?}"));
        }
        match (&fld.value, v) {
            (FieldValue::ScalarOther(f), Val::St(i)) => check_fields(f, i)?,
            (FieldValue::ArrayOther(f), Val::ArSt(i)) => {
                for (f, i) in f.iter().zip(i) {
                    check_fields(f, i)?
                }
            }
            _ => {}
        }
    }
    Ok(())
}
fn views(m: &UlogMessage, o: &Obs) -> Result<(), String> {
    let eq = |what: &str, got: String, want: String| if got == want { Ok(()) } else { Err(format!("{what} prints as {got:?} instead of {want:?}")) };
    let hexrel = |key: &str, val: &Val| match val {
        Val::Sc(Prim::U32, b) if key.starts_with("ver_") && key.ends_with("_release") => format!("{key}: {:#X}", *b as u32),
        v => format!("{key}: {}", shown(v, false)),
    };
    match (m, o) {
        (UlogMessage::LoggedData(d), Obs::Data { inst, .. }) => {
            check_fields(&d.data, inst)?;
            eq("data", d.data.to_string(), inst_name(inst))?;
            let mut want = vec![];
            leaves(&inst_name(inst), inst, &mut want);
            #[allow(deprecated)]
            let got: Vec<(String, Val)> = d.data.flatten().iter().map(|(p, v)| (p.clone(), val(v))).collect();
            if got != want {
                let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                return Err(format!("flattened leaf {i} is {:?} instead of {:?}", got.get(i), want.get(i)));
            }
            Ok(())
        }
        (UlogMessage::Info(i), Obs::Info { key, val, .. }) => {
            eq("info", i.to_string(), hexrel(key, val))?;
            eq("info value", i.value.to_string(), shown(val, true))
        }
        (UlogMessage::MultiInfo(i), Obs::MultiInfo { key, val, .. }) => {
            eq("multi info", i.to_string(), hexrel(key, val))?;
            eq("multi info value", i.value.to_string(), shown(val, true))
        }
        (UlogMessage::Parameter(i), Obs::Param { key, val, .. }) => eq("parameter", i.to_string(), format!("{key}: {}", shown(val, false))),
        (UlogMessage::DefaultParameter(i), Obs::DefParam { key, val, types, .. }) => {
            let t = ["", "SystemWide", "Configuration", "SystemWide|Configuration"][(types & 3) as usize];
            let d = i.get_default_type();
            if (d.system_wide, d.configuration) != (types & 1 != 0, types & 2 != 0) {
                return Err(format!("default type of {types:#x} is {d:?}"));
            }
            eq("default parameter", i.to_string(), format!("{key} ({t}): {}", shown(val, false)))
        }
        (UlogMessage::LoggedString(l) | UlogMessage::TaggedLoggedString(l), Obs::Log { level, tag, ts, text, .. }) => {
            let n = ["EMERG", "ALERT", "CRIT", "ERR", "WARNING", "NOTICE", "INFO", "DEBUG"][(level - b'0') as usize];
            let tg = tag.map_or(String::new(), |t| format!(" Tag: {t}"));
            eq("log string", l.to_string(), format!("{n}{tg} {ts}: {text}"))
        }
        (UlogMessage::AddSubscription(s), Obs::Sub { id, name, .. }) => eq("subscription", s.to_string(), format!("Subscription: {name} msg_id: {id}")),
        (UlogMessage::DropoutMark(d), Obs::Dropout(n)) => eq("dropout", d.to_string(), n.to_string()),
        (UlogMessage::FormatDefinition(f), Obs::Format(d)) => {
            for f in &f.fields {
                if (f.r#type.is_array(), f.r#type.is_scalar()) != (f.r#type.array_size.is_some(), f.r#type.array_size.is_none()) {
                    return Err(format!("{f} is said to be array: {}, scalar: {}", f.r#type.is_array(), f.r#type.is_scalar()));
                }
            }
            eq("format", f.to_string(), d.fields.iter().map(|(n, t)| format!("{} {n}", rm::ty_text(t))).collect::<Vec<_>>().join("; "))
        }
        _ => Ok(()),
    }
}
fn c22(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    for cfg in [Cfg::all(), Cfg::default()] {
        // values come from the model, so that a decoding bug and a display bug cannot cancel
        let e = rm::expect(b, &cfg);
        let ms = messages(b, &cfg).map_err(|p| Fail::new(format!("panic: {p}"), hex(b)))?;
        ctx.execs += 1;
        ctx.transitions += ms.len() as u64;
        ctx.states.extend(e.states.iter());
        for (i, (m, x)) in ms.iter().zip(&e.items).enumerate() {
            let (Some(m), rm::Exp::Is(o)) = (m, x) else { continue };
            match guard(|| views(m, o)) {
                Ok(Ok(())) => {}
                Ok(Err(w)) => return Err(Fail::new(format!("item {i}: {w}"), hex(b))),
                Err(p) => return Err(Fail::new(format!("item {i}: panic: {p}"), hex(b))),
            }
        }
    }
    Ok(())
}
fn fams(t: Tier) -> Vec<Family> {
    let mut v = vec![];
    v.push(Family::new(
        "chars",
        "every byte: character view, printed form, round trip",
        256,
        |i, ctx| {
            let c = CChar(i as u8);
            ctx.execs += 1;
            ctx.transitions += 4;
            ctx.state(&i);
            let want = if i < 128 { i as u8 as char } else { '\u{fffd}' };
            let ok = c.as_char() == want
                && c.as_u8() == i as u8
                && u8::from(c) == i as u8
                && CChar::from(i as u8) == c
                && c.to_string() == sc(Prim::Char, i)
                && FieldValue::ScalarChar(c).to_string() == format!("'{}'", sc(Prim::Char, i));
            if ok {
                Ok(())
            } else {
                Err(Fail::new(format!("views of byte {i:#x}: {:?} {}", c.as_char(), c), format!("{i}")))
            }
        },
        |i| format!("{i}"),
    ));
    let bytes: Vec<u8> = vec![0, 1, b'\n', b' ', b'a', 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xe2, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff];
    let k = bytes.len() as u64;
    let d = t.pick(4u32, 5);
    let b1 = bytes.clone();
    v.push(Family::new(
        "strings",
        "every byte string of length 4 (thorough: 5) over 23 boundary bytes, and every one- and two-byte string",
        k.pow(d) + 65536 + 256,
        move |i, ctx| {
            let b: Vec<u8> = if i < 256 {
                vec![i as u8]
            } else if i < 256 + 65536 {
                vec![(i - 256) as u8, ((i - 256) >> 8) as u8]
            } else {
                let mut j = i - 256 - 65536;
                (0..d).map(|_| b1[digit(&mut j, k) as usize]).collect()
            };
            text_case(&b, ctx)
        },
        |i| format!("{i}"),
    ));
    v.push(Family::new(
        "nul_runs",
        "strings with leading, inner and trailing NUL runs of 0..=6, and the empty string",
        7 * 7 * 7 * 3,
        |mut i, ctx| {
            let (a, b, c) = (digit(&mut i, 7) as usize, digit(&mut i, 7) as usize, digit(&mut i, 7) as usize);
            let m: &[u8] = [&b"x"[..], b"", b"\xff"][i as usize];
            text_case(&[&vec![0; a], m, &vec![0; b][..], m, &vec![0; c]].concat(), ctx)
        },
        |i| format!("{i}"),
    ));
    let mut sp = corpus::all(t);
    sp.push(super::c_hist::words_space(t.pick(3, 4)));
    // wide arrays: index formatting beyond two digits
    sp.push(corpus::Space::new("indices", "arrays of primitives and structures of 1..=130 elements and instance numbers, for path indices", 130 * 3, |i| {
        let n = i / 3 + 1;
        cat(&[
            header(),
            fmt("n:uint8_t[2] a;int8_t b;"),
            fmt(&format!("m:uint64_t timestamp;n[{n}] x;uint8_t[{n}] y;")),
            sub([0, 1, 200][(i % 3) as usize], 1, "m"),
            sub(n as u8, 2, "m"),
            data(1, &fill(8 + 4 * n as usize)),
            data(2, &fill(8 + 4 * n as usize)),
        ])
    }));
    v.extend(over(sp, c22));
    v
}
pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C22",
        level: "model_checking",
        rule: "states = distinct reader-model states and distinct byte strings; every view is computed by the real code and compared with the model's value printed by the harness",
        assumptions: vec!["the printed layout (quotes, brackets, separators) is the current one".into(), "float formatting is std's".into()],
        families: fams,
    }]
}
