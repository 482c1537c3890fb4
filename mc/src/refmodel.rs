//! Reference model of a ULog reader: an explicit state machine over messages, written from the ULog file format
//! specification and the properties, without using any code of the crate under test.
use crate::obs::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

/// What the model allows at one place of the item sequence.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Exp {
    Is(Obs),
    /// one of these
    Either(Vec<Obs>),
    /// exactly one item of any kind (content the properties leave open), but no panic
    Any,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tail {
    End,
    Err,
    ErrOrEnd,
    /// at least one error, nothing but errors
    Errs,
}
pub struct Expect {
    pub items: Vec<Exp>,
    pub tail: Tail,
    /// in C01's domain: must re-encode to the original bytes
    pub canon: bool,
    /// end offset of the message of each item
    pub ends: Vec<usize>,
    /// model state hash after each message
    pub states: Vec<u64>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Model {
    pub formats: BTreeMap<String, Arc<Def>>,
    pub subs: BTreeMap<u16, (u8, String)>,
    pub multi: BTreeSet<String>,
    pub in_data: bool,
    pub limit: Option<u64>,
}

fn le(b: &[u8]) -> u64 {
    let mut v = 0u64;
    for (i, x) in b.iter().enumerate() {
        v |= (*x as u64) << (8 * i);
    }
    v
}

#[derive(Clone, PartialEq, Debug)]
enum Tok {
    Id(String),
    Num(Option<usize>),
    P(char),
}
fn word(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_' || c == '-' || c == '/'
}
/// None for a numeric/identifier mixture whose reading the properties leave open.
fn toks(s: &str) -> Option<Vec<Tok>> {
    let cs: Vec<char> = s.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
        } else if word(c) {
            let st = i;
            while i < cs.len() && word(cs[i]) {
                i += 1;
            }
            let w: String = cs[st..i].iter().collect();
            if w.bytes().all(|b| b.is_ascii_digit()) {
                out.push(Tok::Num(w.parse().ok()));
            } else if c.is_ascii_alphabetic() || c == '_' {
                out.push(Tok::Id(w));
            } else {
                return None; // 3abc, -x: left open
            }
        } else {
            out.push(Tok::P(c));
            i += 1;
        }
    }
    Some(out)
}
/// Outcome of reading a text: accepted, rejected, or left open.
pub enum Txt<T> {
    Ok(T),
    Bad,
    Open,
}
fn plain(n: &str) -> bool {
    n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'_')
}
fn field(t: &[Tok], i: &mut usize) -> Option<(String, Ty)> {
    let Some(Tok::Id(base)) = t.get(*i) else { return None };
    *i += 1;
    let mut arr = None;
    if t.get(*i) == Some(&Tok::P('[')) {
        let Some(Tok::Num(Some(n))) = t.get(*i + 1) else { return None };
        if t.get(*i + 2) != Some(&Tok::P(']')) {
            return None;
        }
        arr = Some(*n);
        *i += 3;
    }
    let Some(Tok::Id(name)) = t.get(*i) else { return None };
    *i += 1;
    let base = if Prim::of(base).is_some() { base.clone() } else { format!("?{base}") };
    Some((name.clone(), Ty { base, arr }))
}
pub fn format_text(s: &str) -> Txt<Def> {
    let Some(t) = toks(s) else { return Txt::Open };
    let (Some(Tok::Id(name)), Some(Tok::P(':'))) = (t.first(), t.get(1)) else { return Txt::Bad };
    let mut i = 2;
    let mut fields = vec![];
    while i < t.len() {
        let Some(f) = field(&t, &mut i) else { return Txt::Bad };
        if t.get(i) != Some(&Tok::P(';')) {
            return Txt::Bad;
        }
        i += 1;
        fields.push(f);
    }
    if fields.iter().any(|f| !plain(&f.0)) {
        return Txt::Open; // '-' and '/' are legal in message names only
    }
    Txt::Ok(Def { name: name.clone(), fields })
}
pub fn key_text(s: &str) -> Txt<(String, Ty)> {
    let Some(t) = toks(s) else { return Txt::Open };
    let mut i = 0;
    let Some(f) = field(&t, &mut i) else { return Txt::Bad };
    if i < t.len() {
        return Txt::Open; // trailing text in a key: left open
    }
    if !plain(&f.0) {
        return Txt::Open;
    }
    Txt::Ok(f)
}
pub fn ty_text(t: &Ty) -> String {
    let b = t.base.strip_prefix('?').unwrap_or(&t.base);
    match t.arr {
        None => b.to_string(),
        Some(n) => format!("{b}[{n}]"),
    }
}
pub fn def_text(d: &Def) -> String {
    let mut s = format!("{}:", d.name);
    for (n, t) in &d.fields {
        s += &format!("{} {};", ty_text(t), n);
    }
    s
}
pub fn key_canon(key: &str, t: &Ty) -> String {
    format!("{} {}", ty_text(t), key)
}

#[derive(Debug)]
enum Bad {
    Error,
    Open,
}
struct Dec<'a> {
    m: &'a Model,
    b: &'a [u8],
    pos: usize,
    cfg: &'a Cfg,
    canon: bool,
    items: usize,
    open: bool,
}
const OPEN_DEPTH: usize = 24;
impl<'a> Dec<'a> {
    fn left(&self) -> usize {
        self.b.len() - self.pos
    }
    fn take(&mut self, n: usize) -> Result<&'a [u8], Bad> {
        if n > self.left() {
            return Err(Bad::Error);
        }
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    fn prim(&mut self, p: Prim) -> Result<u64, Bad> {
        let v = le(self.take(p.size())?);
        if p == Prim::Bool {
            if v > 1 {
                self.canon = false;
            }
            return Ok((v != 0) as u64);
        }
        Ok(v)
    }
    fn value(&mut self, t: &Ty, depth: usize) -> Result<Val, Bad> {
        if let Some(p) = Prim::of(&t.base) {
            return match t.arr {
                None => Ok(Val::Sc(p, self.prim(p)?)),
                Some(n) => {
                    if n.checked_mul(p.size()).is_none_or(|x| x > self.left()) {
                        return Err(Bad::Error);
                    }
                    let mut v = Vec::with_capacity(n);
                    for _ in 0..n {
                        v.push(self.prim(p)?);
                    }
                    Ok(Val::Ar(p, v))
                }
            };
        }
        let name = t.base.strip_prefix('?').expect("type");
        let d = self.m.formats.get(name).ok_or(Bad::Error)?.clone();
        match t.arr {
            None => Ok(Val::St(Box::new(self.inst(&d, depth + 1)?))),
            Some(n) => {
                let mut v = vec![];
                for _ in 0..n {
                    v.push(self.inst(&d, depth + 1)?);
                }
                Ok(Val::ArSt(v))
            }
        }
    }
    fn inst(&mut self, d: &Arc<Def>, depth: usize) -> Result<Inst, Bad> {
        if depth > OPEN_DEPTH {
            // self-referential formats must be errors, deeply nested ones may be
            return Err(if self.cyclic(d) { Bad::Error } else { Bad::Open });
        }
        self.items += 1 + d.fields.len();
        if self.items > 8000 + 2 * self.b.len() {
            return Err(Bad::Open); // the implementation may refuse explosive definitions
        }
        let mut fields = vec![];
        let mut ts = None;
        for (n, t) in &d.fields {
            if n.starts_with("_padding") {
                if self.left() == 0 && !(Prim::of(&t.base).is_some() && t.arr == Some(0)) {
                    continue; // omitted trailing padding
                }
                if let Some(p) = Prim::of(&t.base) {
                    let size = p.size().checked_mul(t.arr.unwrap_or(1)).ok_or(Bad::Error)?;
                    if size > self.left() {
                        // partly present padding: what follows it must fail, the rest is open
                        self.pos = self.b.len();
                        self.open = true;
                        continue;
                    }
                }
                let v = self.value(t, depth)?;
                if self.cfg.pad {
                    fields.push((n.clone(), t.clone(), v));
                }
                continue;
            }
            let v = self.value(t, depth)?;
            if n == "timestamp" {
                if let Val::Sc(Prim::U64, x) = v {
                    ts = Some(x);
                }
            }
            fields.push((n.clone(), t.clone(), v));
        }
        Ok(Inst { name: d.name.clone(), ts, multi: None, fields, def: d.clone() })
    }
    fn cyclic(&self, d: &Arc<Def>) -> bool {
        // does d reach a format that reaches itself?
        fn go<'x>(m: &'x Model, n: &str, stack: &mut Vec<String>, done: &mut BTreeSet<String>) -> bool {
            if stack.iter().any(|s| s == n) {
                return true;
            }
            if !done.insert(n.to_string()) {
                return false;
            }
            let Some(f) = m.formats.get(n) else { return false };
            stack.push(n.to_string());
            for (_, t) in &f.fields {
                if let Some(c) = t.base.strip_prefix('?') {
                    if go(m, c, stack, done) {
                        return true;
                    }
                }
            }
            stack.pop();
            false
        }
        go(self.m, &d.name, &mut vec![], &mut BTreeSet::new())
    }
}

impl Model {
    /// One complete message: what must be yielded, whether it is canonical, and the state change.
    pub fn step(&mut self, t: u8, p: &[u8], cfg: &Cfg) -> (Exp, bool) {
        let mut canon = true;
        let r = self.step_sub(t, p, cfg, &mut canon);
        match r {
            Ok(o) => (Exp::Is(o), canon),
            Err(Bad::Error) => (Exp::Is(Obs::Err), false),
            Err(Bad::Open) => {
                // data before any subscription is never decoded
                if t == b'D' && !self.in_data {
                    (Exp::Either(vec![Obs::Err, Obs::Unhandled { ty: b'D', bytes: p.to_vec() }]), false)
                } else {
                    (Exp::Any, false)
                }
            }
        }
    }
    fn step_sub(&mut self, t: u8, p: &[u8], cfg: &Cfg, canon: &mut bool) -> Result<Obs, Bad> {
        let raw = || Obs::Unhandled { ty: t, bytes: p.to_vec() };
        match t {
            b'B' if !self.in_data => {
                if p.len() < 40 {
                    return Err(Bad::Error);
                }
                let compat: [u8; 8] = p[..8].try_into().unwrap();
                let incompat: [u8; 8] = p[8..16].try_into().unwrap();
                if incompat[0] & !1 != 0 || incompat[1..].iter().any(|x| *x != 0) {
                    return Err(Bad::Error);
                }
                let off = [le(&p[16..24]), le(&p[24..32]), le(&p[32..40])];
                if incompat[0] & 1 != 0 {
                    self.limit = off.iter().copied().find(|o| *o > 0);
                }
                *canon = p.len() == 40;
                Ok(Obs::Flags { compat, incompat, off })
            }
            b'F' if !self.in_data => {
                let s = std::str::from_utf8(p).map_err(|_| Bad::Error)?;
                match format_text(s) {
                    Txt::Ok(d) => {
                        *canon = def_text(&d) == s;
                        self.formats.insert(d.name.clone(), Arc::new(d.clone()));
                        Ok(Obs::Format(d))
                    }
                    Txt::Bad => Err(Bad::Error),
                    Txt::Open => Err(Bad::Open),
                }
            }
            b'A' => {
                if p.len() < 3 {
                    return Err(Bad::Error);
                }
                let name = std::str::from_utf8(&p[3..]).map_err(|_| Bad::Error)?.to_string();
                if !self.formats.contains_key(&name) {
                    return Err(Bad::Error);
                }
                let id = le(&p[1..3]) as u16;
                self.in_data = true;
                if p[0] > 0 {
                    self.multi.insert(name.clone());
                }
                self.subs.insert(id, (p[0], name.clone()));
                Ok(Obs::Sub { multi: p[0], id, name })
            }
            b'R' if self.in_data => {
                if p.len() < 2 {
                    return Err(Bad::Error);
                }
                self.subs.remove(&(le(&p[..2]) as u16));
                Ok(raw())
            }
            b'D' => {
                if !self.in_data {
                    return Err(Bad::Open);
                }
                if p.len() < 2 {
                    return Err(Bad::Error);
                }
                let id = le(&p[..2]) as u16;
                let Some((multi, name)) = self.subs.get(&id) else { return Err(Bad::Error) };
                if let Some(a) = &cfg.allow {
                    if !a.contains(name) {
                        *canon = false;
                        return Ok(Obs::Ignored(b'D'));
                    }
                }
                let d = self.formats[name].clone();
                if !d.fields.iter().any(|f| f.0 == "timestamp") {
                    return Err(Bad::Error);
                }
                let mut dec = Dec { m: self, b: p, pos: 2, cfg, canon: true, items: 0, open: false };
                let mut i = dec.inst(&d, 0)?;
                if self.multi.contains(name) {
                    i.multi = Some(*multi);
                }
                let ts = i.ts.ok_or(Bad::Error)?;
                if dec.left() > 0 || dec.open {
                    return Err(Bad::Open);
                }
                *canon = dec.canon;
                if !cfg.ts {
                    i.fields.retain(|f| f.0 != "timestamp");
                }
                Ok(Obs::Data { ts, id, inst: i })
            }
            b'I' | b'M' | b'P' | b'Q' => {
                let mut q = p;
                let mut pre = 0;
                if t == b'M' || t == b'Q' {
                    pre = *q.first().ok_or(Bad::Error)?;
                    q = &q[1..];
                }
                let klen = *q.first().ok_or(Bad::Error)? as usize;
                if q.len() < 1 + klen {
                    return Err(Bad::Error);
                }
                let (k, v) = (&q[1..1 + klen], &q[1 + klen..]);
                let k = std::str::from_utf8(k).map_err(|_| Bad::Error)?;
                let (key, ty) = match key_text(k) {
                    Txt::Ok(x) => x,
                    Txt::Bad => return Err(Bad::Error),
                    Txt::Open => return Err(Bad::Open),
                };
                *canon = key_canon(&key, &ty) == k;
                if (t == b'P' || t == b'Q') && (ty.arr.is_some() || (ty.base != "int32_t" && ty.base != "float")) {
                    return Err(Bad::Error);
                }
                let mut dec = Dec { m: self, b: v, pos: 0, cfg, canon: true, items: 0, open: false };
                let val = dec.value(&ty, 0)?;
                if dec.left() > 0 || dec.open {
                    return Err(Bad::Open);
                }
                *canon &= dec.canon;
                match t {
                    b'I' => Ok(Obs::Info { key, ty, val }),
                    b'M' => {
                        *canon &= pre <= 1;
                        Ok(Obs::MultiInfo { cont: pre != 0, key, ty, val })
                    }
                    b'P' => Ok(Obs::Param { key, ty, val }),
                    _ => Ok(Obs::DefParam { types: pre, key, ty, val }),
                }
            }
            b'L' | b'C' => {
                let tagged = t == b'C';
                let h = if tagged { 11 } else { 9 };
                if p.len() < h || !(b'0'..=b'7').contains(&p[0]) {
                    return Err(Bad::Error);
                }
                let text = std::str::from_utf8(&p[h..]).map_err(|_| Bad::Error)?.to_string();
                Ok(Obs::Log { tagged, level: p[0], tag: tagged.then(|| le(&p[1..3]) as u16), ts: le(&p[h - 8..h]), text })
            }
            b'O' => match p.len() {
                0 | 1 => Err(Bad::Error),
                2 => Ok(Obs::Dropout(le(p) as u16)),
                _ => Err(Bad::Open),
            },
            _ => Ok(raw()),
        }
    }
}

/// Splits intact framing: (start, type, payload) of each complete message, and the offset where it stops.
pub fn frames(b: &[u8]) -> (Vec<(usize, u8, &[u8])>, usize) {
    let mut v = vec![];
    let mut o = 16;
    while o + 3 <= b.len() {
        let n = le(&b[o..o + 2]) as usize;
        if o + 3 + n > b.len() {
            break;
        }
        v.push((o, b[o + 2], &b[o + 3..o + 3 + n]));
        o += 3 + n;
    }
    (v, o.min(b.len()))
}

pub fn expect(b: &[u8], cfg: &Cfg) -> Expect {
    let mut e = Expect { items: vec![], tail: Tail::End, canon: true, ends: vec![], states: vec![] };
    if b.len() < 16 || b[..7] != crate::wire::MAGIC {
        e.tail = if b.len() < 16 { Tail::Err } else { Tail::Errs };
        e.canon = false;
        return e;
    }
    if cfg.hdr {
        e.items.push(Exp::Is(Obs::Header { version: b[7], ts: le(&b[8..16]) }));
        e.ends.push(16);
    }
    let mut m = Model::default();
    let mut o = 16usize;
    loop {
        if let Some(l) = m.limit {
            if o as u64 >= l {
                e.canon &= o == b.len();
                return e;
            }
        }
        if o == b.len() {
            return e;
        }
        // a message reaching past the limit ends the log
        let past = |end: u64| m.limit.is_some_and(|l| end > l);
        if past(o as u64 + 3) || b.len() - o < 3 {
            e.tail = Tail::ErrOrEnd;
            e.canon = false;
            return e;
        }
        let n = le(&b[o..o + 2]) as usize;
        if past((o + 3 + n) as u64) {
            e.tail = Tail::ErrOrEnd;
            e.canon = false;
            return e;
        }
        if b.len() - o - 3 < n {
            e.tail = Tail::Err;
            e.canon = false;
            return e;
        }
        let (x, c) = m.step(b[o + 2], &b[o + 3..o + 3 + n], cfg);
        o += 3 + n;
        e.canon &= c;
        e.items.push(x);
        e.ends.push(o);
        // in very long histories only every 64th state is recorded (coverage counting alone)
        let n = e.states.len();
        let h = if n < 300 || n % 64 == 0 { crate::engine::hash(&m) } else { e.states[n - 1] };
        e.states.push(h);
    }
}

pub fn matches(x: &Exp, g: &Obs) -> bool {
    match x {
        Exp::Is(o) => o == g,
        Exp::Either(v) => v.contains(g),
        Exp::Any => !matches!(g, Obs::Panic(_) | Obs::Runaway | Obs::Late(_)),
    }
}
/// Compares a full item sequence with the model's.
pub fn compare(e: &Expect, got: &[Obs]) -> Result<(), String> {
    for (i, x) in e.items.iter().enumerate() {
        match got.get(i) {
            None => return Err(format!("item {i}: expected {}, got end of iteration", show_exp(x))),
            Some(g) if !matches(x, g) => return Err(format!("item {i}: expected {}, got {}", show_exp(x), show(g))),
            _ => {}
        }
    }
    let rest = &got[e.items.len()..];
    let ok = match e.tail {
        Tail::End => rest.is_empty(),
        Tail::Err => rest == [Obs::Err],
        Tail::ErrOrEnd => rest.is_empty() || rest == [Obs::Err],
        Tail::Errs => !rest.is_empty() && rest.iter().all(|o| *o == Obs::Err),
    };
    if !ok {
        return Err(format!(
            "after {} items: expected {:?}, got {}",
            e.items.len(),
            e.tail,
            rest.iter().take(4).map(show).collect::<Vec<_>>().join(" | ")
        ));
    }
    Ok(())
}
pub fn show(o: &Obs) -> String {
    crate::engine::clip(&format!("{o:?}"), 700)
}
pub fn show_exp(o: &Exp) -> String {
    crate::engine::clip(&format!("{o:?}"), 700)
}
