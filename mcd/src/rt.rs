//! Runtime of the derive checks: what a derived program is declared to map (Spec), what its stream was seen to yield
//! (DObs), and the reference model of a derived stream, built on the reader model of `mc`.
use mc::engine::guard;
use mc::obs::*;
use mc::refmodel as rm;
use std::collections::BTreeMap;
use std::sync::Arc;
use yule_log::errors::ULogError;

// ---------------------------------------------------------------- what a program declares

/// The logged type a Rust field type corresponds to.
#[derive(Clone, Debug, PartialEq)]
pub enum W {
    Sc(Prim),
    Ar(Prim),
    St(Arc<SSpec>),
    ArSt(Arc<SSpec>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct FSpec {
    pub name: String,
    pub opt: bool,
    pub w: W,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SSpec {
    pub fields: Vec<FSpec>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MSpec {
    pub sub: String,
    pub multi: u8,
    pub s: Arc<SSpec>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct ESpec {
    pub msgs: Vec<MSpec>,
    pub forward: bool,
}
/// A field type's wanted logged type and whether it is optional.
pub trait Want {
    const OPT: bool = false;
    fn want() -> W;
    fn val(self) -> DVal;
}
/// A derived struct.
pub trait Rec: Sized {
    fn sspec() -> SSpec;
    fn vals(self) -> Vec<DVal>;
}
macro_rules! prim {
    ($t:ty, $p:ident, $x:ident, $bits:expr) => {
        impl Want for $t {
            fn want() -> W {
                W::Sc(Prim::$p)
            }
            fn val(self) -> DVal {
                let $x = self;
                DVal::P(Val::Sc(Prim::$p, $bits))
            }
        }
        impl Want for Vec<$t> {
            fn want() -> W {
                W::Ar(Prim::$p)
            }
            fn val(self) -> DVal {
                DVal::P(Val::Ar(Prim::$p, self.into_iter().map(|$x| $bits).collect()))
            }
        }
    };
}
prim!(u8, U8, x, x as u64);
prim!(u16, U16, x, x as u64);
prim!(u32, U32, x, x as u64);
prim!(u64, U64, x, x);
prim!(i8, I8, x, x as u8 as u64);
prim!(i16, I16, x, x as u16 as u64);
prim!(i32, I32, x, x as u32 as u64);
prim!(i64, I64, x, x as u64);
prim!(f32, F32, x, x.to_bits() as u64);
prim!(f64, F64, x, x.to_bits());
prim!(bool, Bool, x, x as u64);
prim!(yule_log::model::CChar, Char, x, x.0 as u64);
impl<T: Want> Want for Option<T> {
    const OPT: bool = true;
    fn want() -> W {
        T::want()
    }
    fn val(self) -> DVal {
        match self {
            None => DVal::None,
            Some(x) => DVal::Some(Box::new(x.val())),
        }
    }
}
impl<T: Rec> Want for Vec<T> {
    fn want() -> W {
        W::ArSt(Arc::new(T::sspec()))
    }
    fn val(self) -> DVal {
        DVal::ArSt(self.into_iter().map(T::vals).collect())
    }
}
/// A derived struct as the type of a field.
#[macro_export]
macro_rules! rec_field {
    ($t:ty) => {
        impl $crate::rt::Want for $t {
            fn want() -> $crate::rt::W {
                $crate::rt::W::St(::std::sync::Arc::new(<$t as $crate::rt::Rec>::sspec()))
            }
            fn val(self) -> $crate::rt::DVal {
                $crate::rt::DVal::St($crate::rt::Rec::vals(self))
            }
        }
    };
}
pub fn fspec<T: Want>(name: &str) -> FSpec {
    FSpec { name: name.into(), opt: T::OPT, w: T::want() }
}
pub fn fval<T: Want>(x: T) -> DVal {
    x.val()
}

// ---------------------------------------------------------------- what is observed

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum DVal {
    P(Val),
    None,
    Some(Box<DVal>),
    St(Vec<DVal>),
    ArSt(Vec<Vec<DVal>>),
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    Mismatch,
    FieldName,
    Config,
    Io(std::io::ErrorKind),
    Other,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum DObs {
    /// (mapped variant in declaration order, field values in declaration order)
    Mapped(usize, Vec<DVal>),
    Other(Obs),
    Err(Kind, String),
    Panic(String),
    Runaway,
    Late(Box<DObs>),
}
pub fn kind(e: &ULogError) -> Kind {
    match e {
        ULogError::TypeMismatch(_) => Kind::Mismatch,
        ULogError::InvalidFieldName(_) => Kind::FieldName,
        ULogError::InvalidConfiguration(_) => Kind::Config,
        ULogError::Io(x) => Kind::Io(x.kind()),
        _ => Kind::Other,
    }
}
pub fn derr(e: &ULogError) -> DObs {
    DObs::Err(kind(e), e.to_string())
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add(String),
    Extend(Vec<String>),
    Fwd(bool),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Run {
    Items(Vec<DObs>),
    /// the k-th builder call was refused
    Refused(usize, Kind),
    /// stream() itself failed
    NoStream(String),
}
/// Iterates to the end and past it.
pub fn drive(mut it: impl Iterator<Item = DObs>, len: usize, out: &mut Vec<DObs>) {
    loop {
        match it.next() {
            None => break,
            Some(x) => out.push(x),
        }
        if out.len() > cap_for(len) {
            out.push(DObs::Runaway);
            return;
        }
    }
    for _ in 0..2 {
        if let Some(x) = it.next() {
            out.push(DObs::Late(Box::new(x)));
        }
    }
}
/// The open function of a program: its stream over a reader, made through the builder if operations are given.
#[macro_export]
macro_rules! opener {
    ($e:ty, $conv:expr) => {
        pub fn open(rd: Box<dyn ::std::io::Read>, ops: Option<&[$crate::rt::Op]>) -> Result<Box<dyn Iterator<Item = $crate::rt::DObs>>, $crate::rt::Run> {
            use $crate::rt::*;
            let conv = |r: Result<$e, ::yule_log::errors::ULogError>| match r {
                Ok(m) => ($conv)(m),
                Err(x) => derr(&x),
            };
            match ops {
                None => match <$e>::stream(rd) {
                    Ok(s) => Ok(Box::new(s.map(conv))),
                    Err(x) => Err(Run::NoStream(x.to_string())),
                },
                Some(ops) => {
                    let mut bd = <$e>::builder(rd);
                    for (k, op) in ops.iter().enumerate() {
                        let r = match op {
                            Op::Add(n) => bd.add_subscription(n.as_str()),
                            Op::Extend(v) => bd.extend_subscriptions(v.clone()),
                            Op::Fwd(f) => bd.forward_subscriptions(*f),
                        };
                        match r {
                            Ok(x) => bd = x,
                            Err(x) => return Err(Run::Refused(k, kind(&x))),
                        }
                    }
                    match bd.stream() {
                        Ok(s) => Ok(Box::new(s.map(conv))),
                        Err(x) => Err(Run::NoStream(x.to_string())),
                    }
                }
            }
        }
    };
}
pub fn other(m: &yule_log::model::msg::UlogMessage) -> DObs {
    DObs::Other(obs(m))
}
pub type OpenFn = fn(Box<dyn std::io::Read>, Option<&[Op]>) -> Result<Box<dyn Iterator<Item = DObs>>, Run>;
#[derive(Clone)]
pub struct Prog {
    pub name: &'static str,
    pub spec: ESpec,
    pub f: OpenFn,
    /// a known deviation: its key and what the program maps instead
    pub alt: Option<(&'static str, ESpec)>,
    /// names it must not map
    pub decoys: Vec<&'static str>,
}
impl Prog {
    /// Runs the derived stream; a panic is the last item.
    pub fn run(&self, b: &[u8], ops: Option<&[Op]>) -> Run {
        let mut out = vec![];
        let rd = Box::new(std::io::Cursor::new(b.to_vec()));
        let r = guard(|| {
            (self.f)(rd, ops).map(|it| drive(it, b.len(), &mut out))
        });
        match r {
            Ok(Ok(())) => Run::Items(out),
            Ok(Err(r)) => r,
            Err(p) => {
                out.push(DObs::Panic(p));
                Run::Items(out)
            }
        }
    }
}

// ---------------------------------------------------------------- the model of a derived stream

#[derive(Clone, PartialEq, Debug)]
pub enum DExp {
    Mapped(usize, Vec<DVal>),
    /// one of several mapped values
    Open(usize),
    Other(rm::Exp),
    AnyErr,
    Mismatch,
    /// must name the first list and none of the second
    Missing(Vec<String>, Vec<String>),
    /// nothing, an error or a forwarded item; or nothing and this forwarded item
    Maybe(Option<Obs>),
    /// an error or this forwarded item
    Lone(Obs),
    /// nothing or any one item
    Free,
    /// anything from here on (the definitions in force are open)
    Rest,
}
#[derive(Clone, PartialEq, Debug)]
enum E {
    Mismatch,
    Missing(Vec<String>, Vec<String>),
    Any,
    Open,
}
fn missing(s: &SSpec, def: &Def) -> Option<E> {
    let has = |n: &str| def.fields.iter().any(|f| f.0 == n);
    let m: Vec<String> = s.fields.iter().filter(|f| !f.opt && !has(&f.name)).map(|f| f.name.clone()).collect();
    if m.is_empty() {
        return None;
    }
    // names that a message may contain as ordinary words prove nothing
    let telling = |n: &str| (n.len() <= 2 || n.contains('_')) && !["in", "is", "as", "at", "to", "of", "on", "no"].contains(&n) && n != def.name;
    let rest = s.fields.iter().filter(|f| !m.contains(&f.name) && telling(&f.name)).map(|f| f.name.clone()).collect();
    Some(E::Missing(m, rest))
}
fn conv_struct(s: &SSpec, i: &Inst, errs: &mut Vec<E>) -> Vec<DVal> {
    if let Some(e) = missing(s, &i.def) {
        errs.push(e);
        return vec![];
    }
    let mut out = vec![];
    for f in &s.fields {
        let v = i.fields.iter().find(|x| x.0 == f.name);
        let r = match v {
            // not in the format, or padding omitted at the end of the message
            None if f.opt => {
                out.push(DVal::None);
                continue;
            }
            None => {
                errs.push(E::Any);
                continue;
            }
            Some((_, _, v)) => conv(&f.w, v, errs),
        };
        out.push(if f.opt { DVal::Some(Box::new(r)) } else { r });
    }
    out
}
fn conv(w: &W, v: &Val, errs: &mut Vec<E>) -> DVal {
    match (w, v) {
        (W::Sc(p), Val::Sc(q, _)) if p == q => DVal::P(v.clone()),
        (W::Ar(p), Val::Ar(q, _)) if p == q => DVal::P(v.clone()),
        (W::St(s), Val::St(i)) => DVal::St(conv_struct(s, i, errs)),
        (W::ArSt(s), Val::ArSt(a)) => DVal::ArSt(a.iter().map(|i| conv_struct(s, i, errs)).collect()),
        _ => {
            errs.push(E::Mismatch);
            DVal::None
        }
    }
}
/// An empty array of a structure that does not fit: the value is empty either way, so it may convert or fail.
fn empty_misfit(s: &SSpec, def: &Def, m: &rm::Model) -> bool {
    for f in &s.fields {
        let Some((_, t)) = def.fields.iter().find(|x| x.0 == f.name) else { continue };
        let sub = t.base.strip_prefix('?').and_then(|n| m.formats.get(n));
        match (&f.w, sub) {
            (W::ArSt(s2), Some(d)) => {
                if t.arr == Some(0) && !fits(s2, d, m) {
                    return true;
                }
                if empty_misfit(s2, d, m) {
                    return true;
                }
            }
            (W::St(s2), Some(d)) if empty_misfit(s2, d, m) => return true,
            _ => {}
        }
    }
    false
}
fn fits(s: &SSpec, def: &Def, m: &rm::Model) -> bool {
    s.fields.iter().all(|f| match def.fields.iter().find(|x| x.0 == f.name) {
        None => f.opt,
        Some((_, t)) => {
            let sub = t.base.strip_prefix('?').and_then(|n| m.formats.get(n));
            match (&f.w, sub) {
                (W::Sc(p), None) => t.arr.is_none() && t.base == p.name(),
                (W::Ar(p), None) => t.arr.is_some() && t.base == p.name(),
                (W::St(s2), Some(d)) => t.arr.is_none() && fits(s2, d, m),
                (W::ArSt(s2), Some(d)) => t.arr.is_some() && fits(s2, d, m),
                _ => false,
            }
        }
    })
}

pub struct Want2 {
    pub items: Vec<DExp>,
    pub tail: rm::Tail,
    pub states: Vec<u64>,
    /// the log leaves the domain (the reader model leaves an item open)
    pub outside: bool,
}
#[derive(Clone, Debug, Default)]
pub struct Setup {
    pub extra: Vec<String>,
    pub fwd_subs: bool,
}
pub fn expect(b: &[u8], e: &ESpec, set: &Setup) -> Want2 {
    let allow: Vec<String> = e.msgs.iter().map(|m| m.sub.clone()).chain(set.extra.iter().cloned()).collect();
    let cfg = Cfg { hdr: false, ts: true, pad: true, allow: Some(allow) };
    let x = rm::expect(b, &cfg);
    // the reader's formats at each point are needed for nested checks: replay them
    let mut m = rm::Model::default();
    let (frames, _) = rm::frames(b);
    let mut bound: BTreeMap<u16, Option<usize>> = BTreeMap::new();
    let mut w = Want2 { items: vec![], tail: x.tail, states: vec![], outside: false };
    for (k, it) in x.items.iter().enumerate() {
        if let Some((_, t, p)) = frames.get(k) {
            let _ = m.step(*t, p, &cfg);
        }
        match it {
            rm::Exp::Is(Obs::Err) => w.items.push(DExp::AnyErr),
            rm::Exp::Is(o @ Obs::Sub { multi, id, name }) => {
                bound.remove(id);
                match e.msgs.iter().position(|s| s.sub == *name && s.multi == *multi) {
                    Some(v) => match missing(&e.msgs[v].s, &m.formats[name]) {
                        None => {
                            bound.insert(*id, Some(v));
                            if set.fwd_subs && e.forward {
                                // forwarding of mapped subscriptions is left open
                                w.items.push(DExp::Maybe(Some(o.clone())));
                            }
                        }
                        Some(E::Missing(a, b)) => {
                            bound.insert(*id, None);
                            w.items.push(DExp::Missing(a, b));
                        }
                        Some(_) => unreachable!(),
                    },
                    None => {
                        if set.fwd_subs && e.forward {
                            w.items.push(DExp::Other(rm::Exp::Is(o.clone())));
                        }
                    }
                }
            }
            rm::Exp::Is(o @ Obs::Data { id, inst, .. }) => match bound.get(id) {
                Some(Some(v)) => {
                    let s = &e.msgs[*v].s;
                    if empty_misfit(s, &inst.def, &m) {
                        w.items.push(DExp::Open(*v));
                    } else {
                        let mut errs = vec![];
                        let vals = conv_struct(s, inst, &mut errs);
                        errs.dedup();
                        w.items.push(match errs.len() {
                            0 => DExp::Mapped(*v, vals),
                            1 => match errs.pop().unwrap() {
                                E::Mismatch => DExp::Mismatch,
                                E::Missing(a, b) => DExp::Missing(a, b),
                                _ => DExp::AnyErr,
                            },
                            _ => DExp::AnyErr,
                        });
                    }
                }
                Some(None) => w.items.push(DExp::Maybe(None)),
                None => {
                    if e.forward {
                        w.items.push(DExp::Other(rm::Exp::Is(o.clone())))
                    }
                }
            },
            rm::Exp::Is(o) => {
                if e.forward {
                    w.items.push(DExp::Other(rm::Exp::Is(o.clone())))
                }
            }
            // data before the first subscription
            rm::Exp::Either(v) if matches!(v[..], [Obs::Err, Obs::Unhandled { .. }]) => w.items.push(if e.forward { DExp::Lone(v[1].clone()) } else { DExp::Maybe(None) }),
            _ => {
                // content that is left open: what it defines or subscribes to is too
                if matches!(frames.get(k), Some((_, t, _)) if !b"FAR".contains(t)) {
                    w.items.push(DExp::Free);
                } else {
                    w.items.push(DExp::Rest);
                    w.outside = k == 0;
                    break;
                }
            }
        }
        w.states.push(mc::engine::hash(&(&m, format!("{bound:?}"))));
    }
    w
}
fn words(s: &str) -> Vec<&str> {
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).collect()
}
fn is(x: &DExp, g: &DObs) -> bool {
    match (x, g) {
        (DExp::Mapped(v, a), DObs::Mapped(w, b)) => v == w && a == b,
        (DExp::Open(v), DObs::Mapped(w, _)) => v == w,
        (DExp::Open(_) | DExp::AnyErr, DObs::Err(k, _)) => *k != Kind::Config,
        (DExp::Other(e), DObs::Other(o)) => rm::matches(e, o),
        (DExp::Mismatch, DObs::Err(k, _)) => *k == Kind::Mismatch,
        (DExp::Missing(a, b), DObs::Err(k, t)) => {
            let w = words(t);
            *k == Kind::FieldName && a.iter().all(|n| w.contains(&n.as_str())) && !b.iter().any(|n| w.contains(&n.as_str()))
        }
        (DExp::Maybe(None), DObs::Err(..) | DObs::Other(_)) => true,
        (DExp::Maybe(Some(o)), DObs::Other(g)) => o == g,
        (DExp::Lone(_), DObs::Err(k, _)) => *k != Kind::Config,
        (DExp::Lone(o), DObs::Other(g)) => o == g,
        _ => false,
    }
}
fn go(x: &[DExp], t: rm::Tail, g: &[DObs]) -> bool {
    let fine = |o: &DObs| !matches!(o, DObs::Panic(_) | DObs::Runaway | DObs::Late(_));
    // how many of the items may have been taken so far
    let mut at: Vec<usize> = vec![0];
    for e in x {
        if matches!(e, DExp::Rest) {
            return g.iter().all(fine);
        }
        let skip = matches!(e, DExp::Maybe(_) | DExp::Free);
        let mut next = vec![];
        for i in at {
            if skip && next.last() != Some(&i) {
                next.push(i);
            }
            if i < g.len() && (is(e, &g[i]) || matches!(e, DExp::Free) && fine(&g[i])) {
                next.push(i + 1);
            }
        }
        if next.is_empty() {
            return false;
        }
        at = next;
    }
    at.into_iter().any(|i| {
        let g = &g[i..];
        let errs = g.iter().all(|o| matches!(o, DObs::Err(..)));
        match t {
            rm::Tail::End => g.is_empty(),
            rm::Tail::Err => g.len() == 1 && errs,
            rm::Tail::ErrOrEnd => g.len() <= 1 && errs,
            rm::Tail::Errs => !g.is_empty() && errs,
        }
    })
}
pub fn compare(w: &Want2, got: &[DObs]) -> Result<(), String> {
    if go(&w.items, w.tail, got) {
        return Ok(());
    }
    if !w.items.iter().any(|x| matches!(x, DExp::Maybe(_) | DExp::Free | DExp::Rest)) {
        for (i, x) in w.items.iter().enumerate() {
            match got.get(i) {
                Some(g) if is(x, g) => {}
                g => return Err(mc::engine::clip(&format!("item {i}: expected {x:?}, got {g:?}"), 1500)),
            }
        }
    }
    Err(mc::engine::clip(&format!("expected {:?} then {:?}, got {got:?}", w.items, w.tail), 2500))
}
