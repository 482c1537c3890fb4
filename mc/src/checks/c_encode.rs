//! C14 encoder framing and limits, C15 writer faults.
use super::*;
use crate::corpus::{self, digit, omnibus, small, Space};
use crate::readers::*;
use crate::wire::*;
use std::io::ErrorKind;
use std::sync::Arc;
use yule_log::encode::Encode;
use yule_log::model::inst::{FieldValue, ParameterValue};
use yule_log::model::msg::*;
use yule_log::model::{def, inst, CChar, Shared};

fn enc(m: &UlogMessage) -> Result<std::io::Result<Vec<u8>>, String> {
    guard(|| {
        let mut v = vec![];
        m.encode(&mut v).map(|_| v)
    })
}
/// Is what a part of a message encoded to (nothing: there is no such part) not what the message has there?
fn r_is_other(out: &[u8], v: &[u8], part: usize) -> bool {
    !out.is_empty() && if part == 1 { out != v } else { v.len() < 3 || out != &v[3..] }
}
/// Every item of a log: framing, determinism, and the re-encoded log parses to equal values.
fn c14(b: &[u8], ctx: &mut Ctx) -> Result<(), Fail> {
    let cfg = Cfg::all();
    let e = rm::expect(b, &cfg);
    let ms = messages(b, &cfg).map_err(|p| Fail::new(format!("panic: {p}"), hex(b)))?;
    ctx.execs += 1;
    ctx.transitions += ms.len() as u64;
    ctx.states.extend(e.states.iter());
    let mut out = vec![];
    let mut want = vec![];
    for (i, m) in ms.iter().enumerate() {
        let Some(m) = m else { continue };
        let o = obs(m);
        let r = enc(m).map_err(|p| Fail::new(format!("panic encoding item {i}: {p}"), hex(b)))?;
        let v = r.map_err(|x| Fail::new(format!("encoding item {i} fails: {x}"), hex(b)))?;
        let again = enc(m).ok().and_then(|r| r.ok());
        if again.as_ref() != Some(&v) {
            return Err(Fail::new(format!("encoding item {i} twice differs"), hex(b)));
        }
        let kind = match &o {
            Obs::Header { .. } => 0,
            Obs::Flags { .. } => b'B',
            Obs::Format(_) => b'F',
            Obs::Data { .. } => b'D',
            Obs::Sub { .. } => b'A',
            Obs::Info { .. } => b'I',
            Obs::MultiInfo { .. } => b'M',
            Obs::Param { .. } => b'P',
            Obs::DefParam { .. } => b'Q',
            Obs::Log { tagged, .. } => [b'L', b'C'][*tagged as usize],
            Obs::Dropout(_) => b'O',
            Obs::Unhandled { ty, .. } => *ty,
            _ => 0,
        };
        // the message through a reference, and its contents by themselves
        for part in 1..4 {
            let mut s = Sink::new();
            let r = guard(|| encode_part(m, part, &mut s)).map_err(|p| Fail::new(format!("panic encoding part {part} of item {i}: {p}"), hex(b)))?;
            if r.as_ref().is_some_and(|r| r.is_err()) || r_is_other(&s.out, &v, part) {
                return Err(Fail::new(format!("part {part} of item {i} encodes to {} where the message is {}", clip(&hex(&s.out), 600), clip(&hex(&v), 600)), hex(b)));
            }
        }
        if matches!(o, Obs::Header { .. }) {
            if v.len() != 16 {
                return Err(Fail::new(format!("header encodes to {}", hex(&v)), hex(b)));
            }
        } else if v.len() < 3 || u16::from_le_bytes([v[0], v[1]]) as usize != v.len() - 3 || v[2] != kind {
            return Err(Fail::new(format!("item {i} ({}) encodes to the frame {}", rm::show(&o), clip(&hex(&v), 600)), hex(b)));
        }
        out.extend_from_slice(&v);
        want.push(o);
    }
    if e.items.contains(&rm::Exp::Any) || e.tail == rm::Tail::Errs {
        ctx.skipped += 1;
        return Ok(());
    }
    let got = run(&out, &cfg);
    ctx.outcome(&got);
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(Fail::new(
            format!("re-encoded item {i} parses as {} instead of {}", got.get(i).map_or("missing".into(), rm::show), want.get(i).map_or("nothing".into(), rm::show)),
            hex(b),
        ));
    }
    Ok(())
}

fn te(base: def::BaseType, n: Option<usize>) -> def::TypeExpr {
    def::TypeExpr { base_type: base, array_size: n }
}
fn txt(n: usize) -> String {
    (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect()
}
/// A message of kind `k` whose content is exactly `n` bytes; None where that kind cannot have it.
fn sized(k: usize, n: usize) -> Option<(UlogMessage, Vec<u8>)> {
    let ctx = cat(&[header(), fmt("m:uint64_t timestamp;")]);
    let chars = |n: usize| FieldValue::ArrayChar((0..n).map(|i| CChar((i % 251) as u8)).collect());
    Some(match k {
        0 => (UlogMessage::LoggedString(LoggedString { level: LogLevel::Info, tag: None, timestamp: 5, msg: txt(n.checked_sub(9)?) }), cat(&[ctx, sub(0, 1, "m")])),
        1 => (UlogMessage::TaggedLoggedString(LoggedString { level: LogLevel::Emerg, tag: Some(0x102), timestamp: 5, msg: txt(n.checked_sub(11)?) }), cat(&[ctx, sub(0, 1, "m")])),
        2 => (UlogMessage::Unhandled { msg_type: b'Z', message_contents: corpus::fill(n) }, ctx),
        3 | 4 => {
            // key "char[N] k"
            let pre = if k == 4 { 1 } else { 0 };
            let mut v = n.checked_sub(1 + pre + 9)?;
            while 1 + pre + format!("char[{v}] k").len() + v > n {
                v = v.checked_sub(1)?;
            }
            if 1 + pre + format!("char[{v}] k").len() + v != n {
                return None;
            }
            let t = te(def::BaseType::CHAR, Some(v));
            if k == 3 {
                (UlogMessage::Info(Info { key: "k".into(), r#type: t, value: chars(v) }), ctx)
            } else {
                (UlogMessage::MultiInfo(MultiInfo { is_continued: true, key: "k".into(), r#type: t, value: chars(v) }), ctx)
            }
        }
        5 => {
            // a format with a long name
            let name = txt(n.checked_sub(1 + 10)?);
            if name.is_empty() {
                return None;
            }
            let f = def::Format { name: name.as_str().into(), fields: vec![def::Field { name: "a".into(), r#type: te(def::BaseType::UINT8, None) }], padding: 0 };
            (UlogMessage::FormatDefinition(f), ctx)
        }
        6 => {
            // a format with many fields
            let per = 10; // "uint8_t x;" = 10
            let rest = n.checked_sub(2)?;
            if rest % per != 0 {
                return None;
            }
            let fields = (0..rest / per).map(|_| def::Field { name: "x".into(), r#type: te(def::BaseType::UINT8, None) }).collect();
            (UlogMessage::FormatDefinition(def::Format { name: "f".into(), fields, padding: 0 }), ctx)
        }
        7 => {
            let name = txt(n.checked_sub(3)?);
            let f = format!("{name}:u u;");
            // without room for a definition of the name only the frame can be judged
            let c = if f.len() <= 65535 { cat(&[ctx, fmt(&f)]) } else { vec![] };
            (UlogMessage::AddSubscription(Subscription { multi_id: 1, msg_id: 0x203, message_name: name }), c)
        }
        8 => {
            // logged data
            let v = n.checked_sub(10)?;
            let d = def::Format {
                name: "d".into(),
                fields: vec![
                    def::Field { name: "timestamp".into(), r#type: te(def::BaseType::UINT64, None) },
                    def::Field { name: "x".into(), r#type: te(def::BaseType::UINT8, Some(v)) },
                ],
                padding: 0,
            };
            let mut c = ctx;
            c.extend(fmt(&format!("d:uint64_t timestamp;uint8_t[{v}] x;")));
            c.extend(sub(0, 4, "d"));
            let data = inst::Format {
                timestamp: Some(7),
                name: "d".into(),
                multi_id_index: None,
                fields: vec![
                    inst::Field { name: "timestamp".into(), r#type: d.fields[0].r#type.clone(), value: FieldValue::ScalarU64(7) },
                    inst::Field { name: "x".into(), r#type: d.fields[1].r#type.clone(), value: FieldValue::ArrayU8(corpus::fill(v)) },
                ],
                def_format: Shared::new(d),
            };
            (UlogMessage::LoggedData(LoggedData { timestamp: 7, msg_id: 4, data }), c)
        }
        _ => return None,
    })
}
const NK: u64 = 9;
/// A keyed message with a typed key of exactly `n` bytes, kind k.
fn keyed(k: usize, ty: usize, n: usize) -> Option<UlogMessage> {
    let (t, val, pv) = match ty {
        0 => (te(def::BaseType::INT32, None), FieldValue::ScalarI32(7), ParameterValue::INT32(7)),
        1 => (te(def::BaseType::FLOAT, None), FieldValue::ScalarF32(1.5), ParameterValue::FLOAT(1.5)),
        _ => (te(def::BaseType::UINT8, Some(12)), FieldValue::ArrayU8(vec![9; 12]), ParameterValue::INT32(1)),
    };
    let tl = ["int32_t", "float", "uint8_t[12]"][ty].len() + 1;
    if ty == 2 && k >= 2 {
        return None;
    }
    let key = txt(n.checked_sub(tl)?);
    if key.is_empty() {
        return None;
    }
    Some(match k {
        0 => UlogMessage::Info(Info { key, r#type: t, value: val }),
        1 => UlogMessage::MultiInfo(MultiInfo { is_continued: false, key, r#type: t, value: val }),
        2 => UlogMessage::Parameter(Parameter { key, r#type: t, value: pv }),
        _ => UlogMessage::DefaultParameter(DefaultParameter { key, default_types: 3, r#type: t, value: pv }),
    })
}
fn limit_case(m: &UlogMessage, size: usize, must_fail: bool, mut context: Vec<u8>, what: String, ctx: &mut Ctx) -> Result<(), Fail> {
    ctx.execs += 1;
    ctx.transitions += 1;
    ctx.state(&what);
    let r = enc(m).map_err(|p| Fail::new(format!("panic: {p}"), what.clone()))?;
    ctx.outcome(&r.is_ok());
    match r {
        Err(_) if must_fail => Ok(()),
        Err(e) => Err(Fail::new(format!("encoding fails: {e}"), what)),
        Ok(v) if must_fail => Err(Fail::new(format!("encoded to a frame of length field {} over {} content bytes instead of failing", u16::from_le_bytes([v[0], v[1]]), v.len() - 3), what)),
        Ok(v) => {
            if v.len() != size + 3 || u16::from_le_bytes([v[0], v[1]]) as usize != size {
                return Err(Fail::new(format!("length field {} over {} content bytes, {size} expected", u16::from_le_bytes([v[0], v[1]]), v.len() - 3), what));
            }
            if context.is_empty() {
                return Ok(());
            }
            context.extend_from_slice(&v);
            let got = run(&context, &Cfg::all());
            let mut want = obs(m);
            if let Obs::Data { inst, .. } = &mut want {
                inst.multi = None;
            }
            if got.last() != Some(&want) {
                return Err(Fail::new(format!("parses back as {}", got.last().map_or("nothing".into(), rm::show)), what));
            }
            Ok(())
        }
    }
}
fn c14_fams(t: Tier) -> Vec<Family> {
    let mut f = over([corpus::all(t), vec![super::c_hist::words_space(t.pick(3, 4))]].concat(), c14);
    let mut ns: Vec<usize> = vec![40, 127, 128, 255, 256, 257, 1000, 4096, 32767, 32768, 65000];
    ns.extend(65500..65560usize);
    ns.extend([65535 + 256, 65536 + 16, 131070, 131071, 131072, 131073, 196608, 65536 * 4 + 12]);
    if t == Tier::Thorough {
        ns.extend(12..2000);
        ns.extend((1..40).map(|k| 65536 * k + 20));
    }
    let n = ns.len() as u64;
    f.push(Family::new(
        "content_limit",
        "9 message kinds with contents of sizes around 127..257, 32767, 65500..65560 and multiples of 65536",
        n * NK,
        move |mut i, ctx| {
            let sz = ns[digit(&mut i, n) as usize];
            match sized(i as usize, sz) {
                None => {
                    ctx.skipped += 1;
                    Ok(())
                }
                Some((m, c)) => limit_case(&m, sz, sz > 65535, c, format!("kind {i} content {sz}"), ctx),
            }
        },
        move |i| format!("content size index {} kind {}", i % n, i / n),
    ));
    let kl: Vec<usize> = t.pick((200..300).chain([12, 100, 511, 512, 513, 767, 768, 1000, 65536, 65700]).collect(), (9..1100).chain([65535, 65536, 65537, 65700]).collect());
    let n = kl.len() as u64;
    f.push(Family::new(
        "key_limit",
        "info, multi-info, parameter and default parameter with typed keys of lengths around 255, 512 and 65536",
        n * 4 * 3,
        move |mut i, ctx| {
            let l = kl[digit(&mut i, n) as usize];
            let k = digit(&mut i, 4) as usize;
            let what = format!("keyed kind {k} type {i} key length {l}");
            match keyed(k, i as usize, l) {
                None => {
                    ctx.skipped += 1;
                    Ok(())
                }
                Some(m) => {
                    let size = l + 1 + (k % 2) + if i == 2 { 12 } else { 4 };
                    limit_case(&m, size, l > 255, cat(&[header()]), what, ctx)
                }
            }
        },
        |i| format!("{i}"),
    ));
    // component encoders share the key limit
    f.push(Family::new(
        "component_keys",
        "the same key lengths through the component encoders (content without frame)",
        4 * 400,
        |i, ctx| {
            let (k, l) = ((i % 4) as usize, (i / 4) as usize + 150);
            let Some(m) = keyed(k, 0, l) else { return Ok(()) };
            ctx.execs += 1;
            ctx.transitions += 1;
            ctx.state(&(k, l));
            let mut v = vec![];
            let r = guard(|| match &m {
                UlogMessage::Info(x) => x.encode(&mut v),
                UlogMessage::MultiInfo(x) => x.encode(&mut v),
                UlogMessage::Parameter(x) => x.encode(&mut v),
                UlogMessage::DefaultParameter(x) => x.encode(&mut v),
                _ => Ok(()),
            });
            match r {
                Err(p) => Err(Fail::new(format!("panic: {p}"), format!("kind {k} key {l}"))),
                Ok(r) if r.is_ok() == (l > 255) => Err(Fail::new(format!("result {r:?} for a {l} byte key"), format!("component {k}"))),
                Ok(Ok(())) if v[k % 2] as usize != l => Err(Fail::new(format!("key length byte {} for a {l} byte key", v[k % 2]), format!("component {k}"))),
                _ => Ok(()),
            }
        },
        |i| format!("{i}"),
    ));
    f
}

// ---------- C15 ----------
fn msgs_of(b: &[u8]) -> Vec<(usize, Vec<u8>)> {
    // (index, complete encoding) of every item
    messages(b, &Cfg::all())
        .unwrap_or_default()
        .iter()
        .enumerate()
        .filter_map(|(i, m)| m.as_ref().and_then(|m| enc(m).ok().and_then(|r| r.ok())).map(|v| (i, v)))
        .collect()
}
/// Encodes a part of a message by itself, or through a reference to it.
fn via<T: Encode>(x: T, s: &mut Sink) -> std::io::Result<()> {
    x.encode(s)
}
/// The k-th part of a message that can be encoded by itself (0: the message).
fn encode_part(m: &UlogMessage, part: usize, s: &mut Sink) -> Option<std::io::Result<()>> {
    let mut k = part;
    macro_rules! at {
        ($x:expr) => {
            match k {
                0 => return Some($x.encode(s)),
                1 => return Some(via($x, s)),
                _ => k -= 2,
            }
        };
    }
    macro_rules! ty {
        ($t:expr) => {
            at!(&$t);
            at!(&$t.base_type);
        };
    }
    at!(m);
    match m {
        UlogMessage::FlagBits(x) => at!(x),
        UlogMessage::FormatDefinition(x) => {
            at!(x);
            for f in &x.fields {
                at!(f);
                ty!(f.r#type);
            }
        }
        UlogMessage::LoggedData(x) => {
            at!(x);
            at!(&x.data);
            let mut todo: Vec<&inst::Format> = vec![&x.data];
            while let Some(i) = todo.pop() {
                at!(i);
                for f in &i.fields {
                    at!(f);
                    at!(&f.value);
                    match &f.value {
                        FieldValue::ScalarOther(x) => todo.push(x),
                        FieldValue::ArrayOther(x) => todo.extend(x.iter()),
                        _ => {}
                    }
                }
            }
        }
        UlogMessage::AddSubscription(x) => at!(x),
        UlogMessage::Info(x) => {
            at!(x);
            ty!(x.r#type);
            at!(&x.value);
        }
        UlogMessage::MultiInfo(x) => {
            at!(x);
            ty!(x.r#type);
            at!(&x.value);
        }
        UlogMessage::Parameter(x) => {
            at!(x);
            at!(&x.value);
        }
        UlogMessage::DefaultParameter(x) => {
            at!(x);
            at!(&x.value);
        }
        UlogMessage::LoggedString(x) | UlogMessage::TaggedLoggedString(x) => {
            at!(x);
            at!(&x.level);
        }
        UlogMessage::DropoutMark(x) => at!(x),
        _ => {}
    }
    let _ = k;
    None
}
/// Messages hold Rc, so each case re-parses its log; logs are one message plus context.
struct One {
    log: Arc<Vec<u8>>,
    item: usize,
    /// which part of the message is encoded
    part: usize,
    full: Vec<u8>,
}
thread_local! {
    /// the messages of the log used last on this thread
    static LAST: std::cell::RefCell<(Arc<Vec<u8>>, Vec<Option<UlogMessage>>)> = Default::default();
}
fn ones(t: Tier) -> Vec<One> {
    let mut v = vec![];
    let mut add = |log: Vec<u8>, only: Option<usize>| {
        let log = Arc::new(log);
        for (i, full) in msgs_of(&log) {
            if only.is_none_or(|o| o == i) {
                v.push(One { log: log.clone(), item: i, part: 0, full });
            }
        }
    };
    add(omnibus(), None);
    for s in small() {
        add(s, None);
    }
    // a data message with every type, arrays of each, and nested structures
    let mut f = String::from("uint64_t timestamp;");
    let mut n = 8;
    for p in PRIMS {
        f += &format!("{0} s{1};{0}[3] a{1};", p.name(), p as usize);
        n += p.size() * 4;
    }
    add(cat(&[header(), fmt(corpus::N1), fmt(corpus::N2), fmt(&format!("m:{f}n2 q;n2[2] r;")), sub(0, 1, "m"), data(1, &corpus::fill(n + 27 * 3))]), None);
    for p in PRIMS {
        add(cat(&[header(), info(&format!("{}[5] k", p.name()), &corpus::fill(5 * p.size())), multi_info(1, &format!("{} k", p.name()), &corpus::fill(p.size()))]), None);
    }
    if t == Tier::Thorough {
        let s = super::c_hist::words_space(2);
        for i in 0..s.count {
            add((s.gen)(i), None);
        }
    }
    v
}
/// The parts of the messages of some logs; of parts that encode alike in a log, the first.
fn parts(t: Tier) -> Vec<One> {
    let mut v = vec![];
    let mut f = String::from("uint64_t timestamp;");
    let mut n = 8;
    for p in PRIMS {
        f += &format!("{0} s{1};{0}[3] a{1};", p.name(), p as usize);
        n += p.size() * 4;
    }
    let mut logs = vec![omnibus(), cat(&[header(), fmt(corpus::N1), fmt(corpus::N2), fmt(&format!("m:{f}n2 q;n2[2] r;")), sub(0, 1, "m"), data(1, &corpus::fill(n + 27 * 3))])];
    logs.extend(PRIMS.iter().map(|p| cat(&[header(), info(&format!("{}[5] k", p.name()), &corpus::fill(5 * p.size())), multi_info(1, &format!("{} k", p.name()), &corpus::fill(p.size()))])));
    if t == Tier::Thorough {
        logs.extend(small());
        let s = super::c_hist::words_space(2);
        logs.extend((0..s.count).step_by(11).map(|i| (s.gen)(i)));
    }
    for log in logs {
        let log = Arc::new(log);
        for (item, m) in messages(&log, &Cfg::all()).unwrap_or_default().iter().enumerate() {
            let Some(m) = m else { continue };
            for part in 1.. {
                let mut s = Sink::new();
                match guard(|| encode_part(m, part, &mut s)) {
                    Ok(Some(Ok(()))) => v.push(One { log: log.clone(), item, part, full: s.out }),
                    Ok(Some(Err(_))) => {}
                    _ => break,
                }
            }
        }
    }
    v
}
fn write_case(o: &One, s: Sink, what: String, ctx: &mut Ctx) -> Result<(), Fail> {
    LAST.with(|l| {
        let mut l = l.borrow_mut();
        if !Arc::ptr_eq(&l.0, &o.log) {
            let ms = messages(&o.log, &Cfg::all()).map_err(|p| Fail::new(format!("panic: {p}"), what.clone()))?;
            *l = (o.log.clone(), ms);
        }
        write_one(o, l.1[o.item].as_ref().expect("item"), s, what, ctx)
    })
}
fn write_one(o: &One, m: &UlogMessage, mut s: Sink, what: String, ctx: &mut Ctx) -> Result<(), Fail> {
    let must_fail = s.fail.is_some_and(|f| f.0 < o.full.len());
    let r = guard(|| encode_part(m, o.part, &mut s).expect("part")).map_err(|p| Fail::new(format!("panic: {p}"), what.clone()))?;
    if must_fail && !s.failed && r.is_ok() {
        return Err(Fail::new("the failing byte was never written", what));
    }
    let fails = s.failed;
    ctx.execs += 1;
    ctx.transitions += s.steps;
    ctx.state(&what);
    ctx.outcome(&(r.is_ok(), &s.out));
    let full = &o.full;
    if fails {
        let want = s.fail.map(|f| f.1).or(s.fail_call.map(|f| f.1)).flatten().unwrap_or(std::io::ErrorKind::WriteZero);
        match r {
            Ok(()) => return Err(Fail::new("a writer failure is not reported", what)),
            Err(e) if e.kind() == want && !matches!(s.fail.map(|f| f.1).or(s.fail_call.map(|f| f.1)), Some(None)) && !super::c_fault::carries(&e) => return Err(Fail::new(format!("the writer's error is lost: {e:?}"), what)),
            Err(e) if e.kind() != want => return Err(Fail::new(format!("a writer's {want:?} is reported as {e:?}"), what)),
            Err(_) => {}
        }
        if !full.starts_with(&s.out) {
            return Err(Fail::new(format!("bytes accepted before the failure ({}) are no prefix of {}", hex(&s.out), hex(full)), what));
        }
    } else {
        if let Err(e) = r {
            return Err(Fail::new(format!("fails without a writer failure: {e}"), what));
        }
        if s.out != *full {
            return Err(Fail::new(format!("wrote {} instead of {}", clip(&hex(&s.out), 800), clip(&hex(full), 800)), what));
        }
    }
    Ok(())
}
fn c15_fams(t: Tier) -> Vec<Family> {
    let os = Arc::new(ones(t));
    let mut fails = vec![];
    let mut cuts = vec![];
    let mut pairs = vec![];
    for (i, o) in os.iter().enumerate() {
        for at in 0..o.full.len() {
            for k in 0..6 {
                for tm in [1u32, u32::MAX] {
                    fails.push((i, at, k, tm));
                }
            }
            for intr in [false, true] {
                for m in [usize::MAX, 1, 2, 3] {
                    cuts.push((i, at, intr, m));
                }
            }
            if o.full.len() <= t.pick(80, 200) {
                for b in at..o.full.len() {
                    for k in 0..4u8 {
                        pairs.push((i, at, b, k));
                    }
                }
            }
        }
    }
    let mut alone = vec![];
    let ps = Arc::new(parts(t));
    for (i, o) in ps.iter().enumerate() {
        for at in 0..=o.full.len() {
            for how in 0..8usize {
                alone.push((i, at, how));
            }
        }
    }
    let mk = |o: &One, d: &str| format!("item {} of log {}: {d}", o.item, clip(&hex(&o.log), 1500));
    let (o1, o2, o3) = (os.clone(), os.clone(), os.clone());
    let (nf, nc, np) = (fails.len() as u64, cuts.len() as u64, pairs.len() as u64);
    let mut fams = vec![
        Family::new(
            "failures",
            "writer failure at every byte of every message x 5 error kinds and zero-length acceptance x once/for ever",
            nf,
            move |i, ctx| {
                let (oi, at, k, tm) = fails[i as usize];
                let kinds = [Some(ErrorKind::Other), Some(ErrorKind::BrokenPipe), Some(ErrorKind::WouldBlock), Some(ErrorKind::StorageFull), Some(ErrorKind::UnexpectedEof), None];
                let mut s = Sink::new();
                s.fail = Some((at, kinds[k], tm));
                write_case(&o1[oi], s, mk(&o1[oi], &format!("failure at byte {at} {:?} x{tm}", kinds[k])), ctx)
            },
            |i| format!("{i}"),
        ),
        Family::new(
            "short_writes",
            "short write or interruption at every byte of every message x bounded write sizes",
            nc,
            move |i, ctx| {
                let (oi, at, intr, m) = cuts[i as usize];
                let mut s = Sink::new();
                s.max = m;
                if intr {
                    s.intr = vec![(at, 2)];
                } else {
                    s.cuts = vec![at];
                }
                write_case(&o2[oi], s, mk(&o2[oi], &format!("at {at} interrupt {intr} max {m}")), ctx)
            },
            |i| format!("{i}"),
        ),
        Family::new(
            "pairs",
            "every pair of (short write | interruption) then (short write | failure) positions in short messages",
            np,
            move |i, ctx| {
                let (oi, a, b, k) = pairs[i as usize];
                let mut s = Sink::new();
                if k & 1 == 0 {
                    s.cuts.push(a);
                } else {
                    s.intr.push((a, 1));
                }
                if k & 2 == 0 {
                    s.cuts.push(b);
                } else {
                    s.fail = Some((b, Some(ErrorKind::Other), 1));
                }
                s.cuts.sort();
                write_case(&o3[oi], s, mk(&o3[oi], &format!("pair {a} {b} {k}")), ctx)
            },
            |i| format!("{i}"),
        ),
    ];
    fams.push(Family::new(
        "parts",
        &format!("{} encodable parts of messages (contents, definitions, fields, types, values), each by itself and through a reference: at every byte a short write, two interruptions, a failure of 4 kinds or zero-length acceptance, and the pieces 1 and 3", ps.len()),
        alone.len() as u64,
        move |i, ctx| {
            let (oi, at, how) = alone[i as usize];
            let mut s = Sink::new();
            match how {
                0 => s.cuts = vec![at],
                1 => s.intr = vec![(at, 2)],
                2 | 3 => {
                    s.max = [1, 3][how - 2];
                    s.intr = vec![(at, 1)];
                }
                _ => s.fail = Some((at, [Some(ErrorKind::Other), Some(ErrorKind::BrokenPipe), Some(ErrorKind::StorageFull), None][how - 4], [1, u32::MAX][how % 2])),
            }
            let o = &ps[oi];
            write_case(o, s, format!("part {} of item {} of log {}: at {at}, behaviour {how}", o.part, o.item, clip(&hex(&o.log), 1500)), ctx)
        },
        |i| format!("{i}"),
    ));
    // large messages
    let big = Arc::new({
        let l = Arc::new(cat(&[header(), fmt("m:uint64_t timestamp;uint8_t[60000] a;"), sub(0, 1, "m"), data(1, &corpus::fill(60008)), log(b'6', 1, &vec![b'x'; 60000])]));
        msgs_of(&l).into_iter().map(|(i, full)| One { log: l.clone(), item: i, part: 0, full }).collect::<Vec<_>>()
    });
    let sizes = [1usize, 2, 255, 256, 4095, 4096, 8192, 65535, 65536];
    let nb = big.len() as u64;
    fams.push(Family::new(
        "big",
        "60000-byte messages written in pieces of many sizes, with interruptions and late failures",
        nb * 9 * 3,
        move |mut i, ctx| {
            let o = &big[digit(&mut i, nb) as usize];
            let mut s = Sink::new();
            s.max = sizes[digit(&mut i, 9) as usize];
            match i {
                0 => s.intr = vec![(0, 1), (2, 1), (3, 1), (o.full.len() / 2 / s.max * s.max, 3)],
                1 => s.fail = Some((o.full.len() - 1, Some(ErrorKind::Other), 1)),
                _ => s.fail = Some((o.full.len() / 2, None, u32::MAX)),
            }
            let w = format!("big item {} max {} mode {i}", o.item, s.max);
            write_case(o, s, w, ctx)
        },
        |i| format!("{i}"),
    ));
    // by call rather than by offset: whatever the pieces are that the encoder writes
    let sized: Vec<One> = [40usize, 300, 5000, 60000]
        .iter()
        .flat_map(|n| {
            let n = *n;
            let l = Arc::new(cat(&[
                header(),
                fmt(&format!("m:uint64_t timestamp;uint8_t[{n}] a;n2 q;")),
                fmt(corpus::N1),
                fmt(corpus::N2),
                fmt(&format!("k:{}", (0..n.min(5000) / 12).map(|i| format!("int8_t f{i:03};")).collect::<String>())),
                msg(b'Z', &corpus::fill(n)),
                info(&format!("char[{n}] k"), &vec![b'k'; n]),
                multi_info(1, &format!("float[{}] k", n / 4), &corpus::fill(n / 4 * 4)),
                sub(0, 1, "m"),
                data(1, &corpus::fill(n + 8 + 27)),
                log(b'6', 1, &vec![b'x'; n]),
                tlog(b'6', 1, 1, &vec![b'y'; n]),
                sub(0, 2, &"k".repeat(n.min(5000))),
            ]));
            msgs_of(&l).into_iter().map(move |(i, full)| One { log: l.clone(), item: i, part: 0, full }).collect::<Vec<_>>()
        })
        .collect();
    let sized = Arc::new(sized);
    let ns = sized.len() as u64;
    let maxes = [usize::MAX, 4096, 100];
    let nc = t.pick(24u64, 80);
    // two deviations, or one and a failure
    let acts: Vec<(Option<Dev>, Option<Option<ErrorKind>>)> = DEVS
        .iter()
        .map(|d| (Some(*d), None))
        .chain([Some(ErrorKind::Other), Some(ErrorKind::BrokenPipe), None].into_iter().map(|k| (None, Some(k))))
        .collect();
    let na = acts.len() as u64;
    fams.push(Family::new(
        "calls",
        &format!("{ns} messages of 40 to 60000 bytes of content: a deviation (interruption, one byte, half, all but one byte) at each of the first {nc} writes followed by a second one or a failure within 3 writes, with writes limited to {maxes:?}"),
        ns * 3 * nc * 4 * 4 * na,
        move |mut i, ctx| {
            let max = maxes[digit(&mut i, 3) as usize];
            let d1 = DEVS[digit(&mut i, 4) as usize];
            let (d2, f) = acts[digit(&mut i, na) as usize];
            let (apart, a) = (digit(&mut i, 4), digit(&mut i, nc));
            let o = &sized[i as usize];
            // the encoder of a short message makes fewer writes, and a big one is only worth a few
            if a >= (o.full.len() as u64 / 2).max(4) || (o.full.len() > 50000 && (apart != 1 || a > 8)) {
                ctx.skipped += 1;
                return Ok(());
            }
            let mut s = Sink::new();
            s.max = max;
            s.calls.push((a, d1));
            if let Some(d) = d2 {
                s.calls.push((a + apart, d));
            }
            if let Some(k) = f {
                s.calls.retain(|c| c.0 != a + apart);
                s.fail_call = Some((a + apart, k));
            }
            let w = format!("item {} of {} bytes: call {a} {d1:?}, call {} {d2:?} {f:?}, pieces of {max}, log {}", o.item, o.full.len(), a + apart, clip(&hex(&o.log), 600));
            write_case(o, s, w, ctx)
        },
        |i| format!("{i}"),
    ));
    let os = Arc::new(ones(Tier::Quick));
    let no = os.len() as u64;
    fams.push(Family::new(
        "every_call",
        "every message: 1..=3 interruptions before every acceptance x writes limited to many sizes",
        no * 3 * 6,
        move |mut i, ctx| {
            let o = &os[digit(&mut i, no) as usize];
            let mut s = Sink::new();
            s.every = digit(&mut i, 3) as u32 + 1;
            s.max = [usize::MAX, 1, 2, 3, 7, 64][i as usize];
            let w = format!("item {} of log {}: {} interruptions before every acceptance, pieces of {}", o.item, clip(&hex(&o.log), 1500), s.every, s.max);
            write_case(o, s, w, ctx)
        },
        |i| format!("{i}"),
    ));
    fams
}
pub fn space_of_small() -> Vec<Space> {
    vec![Space::list("small", "nine small logs", small())]
}
pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C14",
            level: "model_checking",
            rule: "states = distinct reader-model states and distinct size-limit cases; every message value is encoded by the real encoder, its frame checked, and parsed back",
            assumptions: vec!["message values are those a log can contain, or such values with over-long contents".into()],
            families: c14_fams,
        },
        Check {
            id: "C15",
            level: "fault_enumeration",
            rule: "distinct_nontrivial = distinct (message, writer behaviour) pairs; each is executed on the real encoder",
            assumptions: vec!["at most two deviations per write on messages of up to 80 (thorough 200) bytes, one on longer ones".into()],
            families: c15_fams,
        },
    ]
}
