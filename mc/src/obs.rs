//! Observations: everything a user can see of a yielded item, in the harness's own types, so that equality is
//! bit-exact (floats compared by bits) and does not use code of the crate under test.
use crate::engine::guard;
use std::io::Read;
use yule_log::builder::ULogParserBuilder;
use yule_log::errors::ULogError;
use yule_log::model::msg::UlogMessage;
use yule_log::model::{def, inst, msg};
use yule_log::parser::ULogParser;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Prim {
    U8,
    U16,
    U32,
    U64,
    I8,
    I16,
    I32,
    I64,
    F32,
    F64,
    Bool,
    Char,
}
pub const PRIMS: [Prim; 12] = [
    Prim::U8, Prim::U16, Prim::U32, Prim::U64, Prim::I8, Prim::I16, Prim::I32, Prim::I64, Prim::F32, Prim::F64, Prim::Bool, Prim::Char,
];
impl Prim {
    pub fn name(self) -> &'static str {
        match self {
            Prim::U8 => "uint8_t",
            Prim::U16 => "uint16_t",
            Prim::U32 => "uint32_t",
            Prim::U64 => "uint64_t",
            Prim::I8 => "int8_t",
            Prim::I16 => "int16_t",
            Prim::I32 => "int32_t",
            Prim::I64 => "int64_t",
            Prim::F32 => "float",
            Prim::F64 => "double",
            Prim::Bool => "bool",
            Prim::Char => "char",
        }
    }
    pub fn size(self) -> usize {
        match self {
            Prim::U8 | Prim::I8 | Prim::Bool | Prim::Char => 1,
            Prim::U16 | Prim::I16 => 2,
            Prim::U32 | Prim::I32 | Prim::F32 => 4,
            _ => 8,
        }
    }
    pub fn of(name: &str) -> Option<Prim> {
        PRIMS.iter().copied().find(|p| p.name() == name)
    }
}

/// A type: base is the primitive's name, or '?' + name for a nested format.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Ty {
    pub base: String,
    pub arr: Option<usize>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Def {
    pub name: String,
    pub fields: Vec<(String, Ty)>,
}
/// Values as raw bits, zero-extended.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Sc(Prim, u64),
    Ar(Prim, Vec<u64>),
    St(Box<Inst>),
    ArSt(Vec<Inst>),
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Inst {
    pub name: String,
    pub ts: Option<u64>,
    pub multi: Option<u8>,
    pub fields: Vec<(String, Ty, Val)>,
    pub def: std::sync::Arc<Def>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Obs {
    Header { version: u8, ts: u64 },
    Flags { compat: [u8; 8], incompat: [u8; 8], off: [u64; 3] },
    Format(Def),
    Data { ts: u64, id: u16, inst: Inst },
    Sub { multi: u8, id: u16, name: String },
    Info { key: String, ty: Ty, val: Val },
    MultiInfo { cont: bool, key: String, ty: Ty, val: Val },
    Param { key: String, ty: Ty, val: Val },
    DefParam { types: u8, key: String, ty: Ty, val: Val },
    Log { tagged: bool, level: u8, tag: Option<u16>, ts: u64, text: String },
    Dropout(u16),
    Unhandled { ty: u8, bytes: Vec<u8> },
    Ignored(u8),
    Err,
    // never expected:
    Panic(String),
    Runaway,
    /// an item after the end of the iteration
    Late(Box<Obs>),
}

pub fn ty(t: &def::TypeExpr) -> Ty {
    use def::BaseType::*;
    let base = match &t.base_type {
        UINT8 => "uint8_t".into(),
        UINT16 => "uint16_t".into(),
        UINT32 => "uint32_t".into(),
        UINT64 => "uint64_t".into(),
        INT8 => "int8_t".into(),
        INT16 => "int16_t".into(),
        INT32 => "int32_t".into(),
        INT64 => "int64_t".into(),
        FLOAT => "float".into(),
        DOUBLE => "double".into(),
        BOOL => "bool".into(),
        CHAR => "char".into(),
        OTHER(s) => format!("?{s}"),
    };
    Ty { base, arr: t.array_size }
}
pub fn defn(d: &def::Format) -> Def {
    Def { name: d.name.to_string(), fields: d.fields.iter().map(|f| (f.name.to_string(), ty(&f.r#type))).collect() }
}
pub fn val(v: &inst::FieldValue) -> Val {
    use inst::FieldValue::*;
    use Val::{Ar, Sc};
    match v {
        ScalarU8(x) => Sc(Prim::U8, *x as u64),
        ScalarU16(x) => Sc(Prim::U16, *x as u64),
        ScalarU32(x) => Sc(Prim::U32, *x as u64),
        ScalarU64(x) => Sc(Prim::U64, *x),
        ScalarI8(x) => Sc(Prim::I8, *x as u8 as u64),
        ScalarI16(x) => Sc(Prim::I16, *x as u16 as u64),
        ScalarI32(x) => Sc(Prim::I32, *x as u32 as u64),
        ScalarI64(x) => Sc(Prim::I64, *x as u64),
        ScalarF32(x) => Sc(Prim::F32, x.to_bits() as u64),
        ScalarF64(x) => Sc(Prim::F64, x.to_bits()),
        ScalarBool(x) => Sc(Prim::Bool, *x as u64),
        ScalarChar(x) => Sc(Prim::Char, x.0 as u64),
        ScalarOther(f) => Val::St(Box::new(instance(f))),
        ArrayU8(a) => Ar(Prim::U8, a.iter().map(|x| *x as u64).collect()),
        ArrayU16(a) => Ar(Prim::U16, a.iter().map(|x| *x as u64).collect()),
        ArrayU32(a) => Ar(Prim::U32, a.iter().map(|x| *x as u64).collect()),
        ArrayU64(a) => Ar(Prim::U64, a.clone()),
        ArrayI8(a) => Ar(Prim::I8, a.iter().map(|x| *x as u8 as u64).collect()),
        ArrayI16(a) => Ar(Prim::I16, a.iter().map(|x| *x as u16 as u64).collect()),
        ArrayI32(a) => Ar(Prim::I32, a.iter().map(|x| *x as u32 as u64).collect()),
        ArrayI64(a) => Ar(Prim::I64, a.iter().map(|x| *x as u64).collect()),
        ArrayF32(a) => Ar(Prim::F32, a.iter().map(|x| x.to_bits() as u64).collect()),
        ArrayF64(a) => Ar(Prim::F64, a.iter().map(|x| x.to_bits()).collect()),
        ArrayBool(a) => Ar(Prim::Bool, a.iter().map(|x| *x as u64).collect()),
        ArrayChar(a) => Ar(Prim::Char, a.iter().map(|x| x.0 as u64).collect()),
        ArrayOther(a) => Val::ArSt(a.iter().map(instance).collect()),
    }
}
pub fn instance(f: &inst::Format) -> Inst {
    Inst {
        name: f.name.to_string(),
        ts: f.timestamp,
        multi: f.multi_id_index,
        fields: f.fields.iter().map(|x| (x.name.to_string(), ty(&x.r#type), val(&x.value))).collect(),
        def: std::sync::Arc::new(defn(&f.def_format)),
    }
}
fn pval(v: &inst::ParameterValue) -> Val {
    match v {
        inst::ParameterValue::INT32(x) => Val::Sc(Prim::I32, *x as u32 as u64),
        inst::ParameterValue::FLOAT(x) => Val::Sc(Prim::F32, x.to_bits() as u64),
    }
}
fn lstr(tagged: bool, l: &msg::LoggedString) -> Obs {
    Obs::Log { tagged, level: l.level as u8, tag: l.tag, ts: l.timestamp, text: l.msg.clone() }
}
pub fn obs(m: &UlogMessage) -> Obs {
    match m {
        UlogMessage::Header(h) => Obs::Header { version: h.version, ts: h.timestamp },
        UlogMessage::FlagBits(f) => Obs::Flags { compat: f.compat_flags, incompat: f.incompat_flags, off: f.appended_data_offsets },
        UlogMessage::FormatDefinition(f) => Obs::Format(defn(f)),
        UlogMessage::LoggedData(d) => Obs::Data { ts: d.timestamp, id: d.msg_id, inst: instance(&d.data) },
        UlogMessage::AddSubscription(s) => Obs::Sub { multi: s.multi_id, id: s.msg_id, name: s.message_name.clone() },
        UlogMessage::Info(i) => Obs::Info { key: i.key.clone(), ty: ty(&i.r#type), val: val(&i.value) },
        UlogMessage::MultiInfo(i) => Obs::MultiInfo { cont: i.is_continued, key: i.key.clone(), ty: ty(&i.r#type), val: val(&i.value) },
        UlogMessage::Parameter(p) => Obs::Param { key: p.key.clone(), ty: ty(&p.r#type), val: pval(&p.value) },
        UlogMessage::DefaultParameter(p) => {
            Obs::DefParam { types: p.default_types, key: p.key.clone(), ty: ty(&p.r#type), val: pval(&p.value) }
        }
        UlogMessage::LoggedString(l) => lstr(false, l),
        UlogMessage::TaggedLoggedString(l) => lstr(true, l),
        // the duration is private; its printed form is the only public view of it
        UlogMessage::DropoutMark(d) => match d.to_string().parse() {
            Ok(x) => Obs::Dropout(x),
            Err(_) => Obs::Panic(format!("dropout prints as {d}")),
        },
        UlogMessage::Unhandled { msg_type, message_contents } => Obs::Unhandled { ty: *msg_type, bytes: message_contents.clone() },
        UlogMessage::Ignored { msg_type } => Obs::Ignored(*msg_type),
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Cfg {
    pub hdr: bool,
    pub ts: bool,
    pub pad: bool,
    pub allow: Option<Vec<String>>,
}
impl Cfg {
    pub fn all() -> Cfg {
        Cfg { hdr: true, ts: true, pad: true, allow: None }
    }
    pub fn bits(b: u64) -> Cfg {
        Cfg { hdr: b & 1 != 0, ts: b & 2 != 0, pad: b & 4 != 0, allow: None }
    }
    pub fn allow(mut self, a: &[&str]) -> Cfg {
        self.allow = Some(a.iter().map(|s| s.to_string()).collect());
        self
    }
}
pub fn parser<R: Read>(r: R, c: &Cfg) -> ULogParser<R> {
    let mut b = ULogParserBuilder::new(r).include_header(c.hdr).include_timestamp(c.ts).include_padding(c.pad);
    if let Some(a) = &c.allow {
        b = b.set_subscription_allow_list(a.clone());
    }
    b.build().unwrap_or_else(|e| panic!("build: {e}"))
}
pub fn item(r: &Result<UlogMessage, ULogError>) -> Obs {
    match r {
        Ok(m) => obs(m),
        Err(_) => Obs::Err,
    }
}
/// Iterates to the end (at most `cap` items) and past it.
pub fn run_reader<R: Read>(r: R, c: &Cfg, cap: usize) -> Vec<Obs> {
    let mut out = vec![];
    let res = guard(|| {
        let mut p = parser(r, c);
        loop {
            match p.next() {
                None => break,
                Some(x) => out.push(item(&x)),
            }
            if out.len() > cap {
                out.push(Obs::Runaway);
                return;
            }
        }
        for _ in 0..2 {
            if let Some(x) = p.next() {
                out.push(Obs::Late(Box::new(item(&x))));
            }
        }
    });
    if let Err(e) = res {
        out.push(Obs::Panic(e));
    }
    out
}
pub fn cap_for(len: usize) -> usize {
    len / 3 + 2
}
pub fn run(bytes: &[u8], c: &Cfg) -> Vec<Obs> {
    run_reader(bytes, c, cap_for(bytes.len()))
}
/// The yielded messages themselves (errors as None).
pub fn messages(bytes: &[u8], c: &Cfg) -> Result<Vec<Option<UlogMessage>>, String> {
    guard(|| parser(bytes, c).take(cap_for(bytes.len()) + 1).map(|r| r.ok()).collect())
}
