#!/usr/bin/env python3
"""Emits the derived programs: `fixed` writes mcd/src/progs.rs (C16-C19), `grid TIER DIR` the crate of C25."""
import os, sys, itertools

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RAW = "::yule_log::model::msg::UlogMessage"

def snake(s):
    """Lower snake case: a word ends before an upper-case letter that follows a lower-case one, and before the last
    upper-case letter of a run that a lower-case letter follows. Digits stay with what precedes them."""
    out, mode = "", ""
    for i, c in enumerate(s):
        if c == "_":
            if out and not out.endswith("_"):
                out += "_"
            mode = ""
            continue
        nxt = s[i + 1] if i + 1 < len(s) else ""
        if c.isupper() and out and not out.endswith("_"):
            if mode == "lower" or (mode == "upper" and nxt.islower()):
                out += "_"
        out += c.lower()
        if c.islower():
            mode = "lower"
        elif c.isupper():
            mode = "upper"
    return out.strip("_")

def unraw(n):
    return n[2:] if n.startswith("r#") else n

class Struct:
    def __init__(self, name, fields, sub=None, multi=None, vis="pub ", split=False, before="", derive="ULogData"):
        self.__dict__.update(name=name, fields=fields, sub=sub, multi=multi, vis=vis, split=split, before=before, derive=derive)
    def subscription(self):
        return self.sub if self.sub is not None else snake(unraw(self.name))
    def text(self):
        t = self.before + f"#[derive({self.derive})]\n"
        at = []
        if self.sub is not None:
            at.append(f'subscription_name = "{self.sub}"')
        if self.multi is not None:
            at.append(f"multi_id = {self.multi}")
        if at:
            t += "".join(f"#[yule_log({a})]\n" for a in at) if self.split else f"#[yule_log({', '.join(at)})]\n"
        t += f"{self.vis}struct {self.name} {{\n"
        for f in self.fields:
            n, ty = f[0], f[1]
            if len(f) > 2 and f[2] is not None:
                t += f'    #[yule_log(field_name = "{f[2]}")]\n'
            t += f"    {f[3] if len(f) > 3 else 'pub '}{n}: {ty},\n"
        return t + "}\n"
    def spec_text(self, raw=False):
        fs = []
        for f in self.fields:
            n = f[2] if len(f) > 2 and f[2] is not None else (unraw(f[0]) if raw else snake_field(unraw(f[0])))
            fs.append(f'::mcd::rt::fspec::<{f[1]}>("{n}")')
        return f"::mcd::rt::SSpec {{ fields: vec![{', '.join(fs)}] }}"
    def glue(self):
        """What the program states: the spec of the struct and a view of its values."""
        vs = [f"::mcd::rt::fval(self.{f[0]})" for f in self.fields]
        return (f"impl ::mcd::rt::Rec for {self.name} {{\n"
                f"    fn sspec() -> ::mcd::rt::SSpec {{ {self.spec_text()} }}\n"
                f"    fn vals(self) -> Vec<::mcd::rt::DVal> {{ vec![{', '.join(vs)}] }}\n}}\n"
                f"::mcd::rec_field!({self.name});\n")

def snake_field(n):
    """A field name already in snake case states itself; other shapes are converted."""
    if n == n.lower():
        return n
    return snake(n)

class Prog:
    """variants: list of (variant name, Struct or None for forward_other)"""
    def __init__(self, name, enum, variants, nested=(), imports="use yule_log::{ULogData, ULogMessages};\n", vis="pub ", before="", edge=""):
        self.__dict__.update(name=name, enum=enum, variants=variants, nested=list(nested), imports=imports, vis=vis, before=before, edge=edge)
    def structs(self):
        seen = []
        for s in self.nested + [s for _, s in self.variants if s]:
            if s not in seen:
                seen.append(s)
        return seen
    def enum_text(self, derive="ULogMessages", path=lambda s: s.name):
        t = self.before + f"#[derive({derive})]\n{self.vis}enum {self.enum} {{\n"
        for v, s in self.variants:
            if s is None:
                named = "yule_log" in [self.enum] + [x.name for x in self.structs()]
                t += f"    #[yule_log(forward_other)]\n    {v}({RAW if named else RAW.lstrip(':')}),\n"
            else:
                t += f"    {v}({path(s)}),\n"
        return t + "}\n"
    def tail(self, path=lambda s: s.name):
        arms, k, ms = [], 0, []
        for v, s in self.variants:
            if s is None:
                arms.append(f"{self.enum}::{v}(m) => ::mcd::rt::other(&m)")
            else:
                arms.append(f"{self.enum}::{v}(x) => ::mcd::rt::DObs::Mapped({k}, ::mcd::rt::Rec::vals(x))")
                ms.append(f'::mcd::rt::MSpec {{ sub: "{s.subscription()}".into(), multi: {s.multi or 0}, s: ::std::sync::Arc::new(<{path(s)} as ::mcd::rt::Rec>::sspec()) }}')
                k += 1
        decoys = ", ".join(f'"{d}"' for d in self.decoys())
        alt = "None"
        if self.edge == "camel":
            alt = (f'Some(("field-name-not-snake-cased", ::mcd::rt::ESpec {{ forward: {"true" if any(s is None for _, s in self.variants) else "false"}, msgs: vec![' +
                   ", ".join(f'::mcd::rt::MSpec {{ sub: "{s.subscription()}".into(), multi: {s.multi or 0}, s: ::std::sync::Arc::new({s.spec_text(raw=True)}) }}' for _, s in self.variants if s) + "] }))")
        fwd = "true" if any(s is None for _, s in self.variants) else "false"
        return (f"::mcd::opener!({self.enum}, |m: {self.enum}| match m {{ {', '.join(arms)} }});\n"
                f"pub fn prog() -> ::mcd::rt::Prog {{\n    ::mcd::rt::Prog {{ name: \"{self.name}\", f: open, "
                f"decoys: vec![{decoys}], alt: {alt}, spec: ::mcd::rt::ESpec {{ forward: {fwd}, msgs: vec![{', '.join(ms)}] }} }}\n}}\n")
    def decoys(self):
        """Names the program must not map: the Rust names behind overridden or converted ones."""
        d = []
        for v, s in self.variants:
            if s:
                for n in (unraw(s.name), snake(unraw(s.name)), unraw(v), snake(unraw(v))):
                    if n and n not in d and all(n != x.subscription() for _, x in self.variants if x):
                        d.append(n)
        return d
    def module(self):
        return (self.imports + "".join(s.text() + s.glue() for s in self.structs()) + self.enum_text() + self.tail())

PRIMS = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "::yule_log::model::CChar"]
TS = ("timestamp", "u64")

def fixed():
    ps = {"C16": [], "C17": [], "C17N": [], "C18": [], "C19": []}
    S, P = Struct, Prog
    # --- C16 / C19
    an = S("An", [TS, ("v", "Option<u8>"), ("w", "Option<i8>")])
    a = S("A", [TS, ("v", "Option<u8>")])
    b = S("B", [TS, ("x", "An")])
    ps["C16"].append(P("plain", "Msgs", [("A", a), ("B", b)], [an]))
    a0 = S("A0", [TS, ("v", "u8")], sub="a", multi=0)
    a1 = S("A1", [TS, ("w", "Option<i8>")], sub="a", multi=1)
    ps["C16"].append(P("multi", "Msgs", [("A1", a1), ("A0", a0), ("Other", None)]))
    b1 = S("B1", [("x", "An"), TS], sub="b", multi=1)
    ab = S("Ab", [("y", "Vec<An>")])
    ps["C16"].append(P("front", "Msgs", [("Raw", None), ("B1", b1), ("Ab", ab)], [an]))
    am = S("A", [TS, ("v", "Option<u16>"), ("w", "Option<i8>")])
    ps["C16"].append(P("misfit", "Msgs", [("A", am), ("Other", None), ("Ab", S("Ab", [("y", "An")]))], [an]))
    ps["C16"].append(P("all", "Msgs", [("A", a), ("A1", a1), ("B", b), ("B1", b1), ("Ab", ab), ("Other", None)], [an]))
    high = [(f"A{k}", S(f"A{k}", [TS, ("v" if k % 2 else "w", "Option<u8>" if k % 2 else "Option<i8>")], sub="a", multi=k)) for k in (127, 128, 255, 1, 64)]
    ps["C16"].append(P("high", "Msgs", high[:3] + [("Other", None)] + high[3:] + [("B255", S("B255", [TS], sub="b", multi=255))]))
    ps["C19"].append(P("fwd", "Msgs", [("A", a), ("B1", b1), ("Other", None)], [an]))
    ps["C19"].append(P("nofwd", "Msgs", [("A", a), ("B1", b1)], [an]))
    # --- C17
    n = S("N", [("na", "u16")])
    n2 = S("Outer", [("n", "N")])
    tys = [(p, []) for p in PRIMS] + [(f"Vec<{p}>", []) for p in PRIMS]
    tys += [("N", [n]), ("Vec<N>", [n]), ("Outer", [n, n2]), ("Vec<Outer>", [n, n2])]
    for i, (t, nest) in enumerate(tys):
        ps["C17"].append(P(f"t{i}", "Msgs", [("M", S("M", [TS, ("f", t)])), ("Other", None)], nest))
        ps["C17"].append(P(f"o{i}", "Msgs", [("M", S("M", [TS, ("f", f"Option<{t}>")]))], nest))
    named = [("is_armed", "bool"), ("has_fix", "bool"), ("valid", "bool"), ("flag", "u8"), ("enabled", "u8"), ("count", "u32"), ("num", "u16"), ("len", "i32"), ("name", "Vec<CChar>"), ("text", "Vec<u8>"),
             ("id", "i16"), ("seq", "u64"), ("timestamp_sample", "u64"), ("x", "f32"), ("lat", "f64"), ("value", "i8"), ("offset", "i64"), ("ratios", "Vec<f32>"), ("samples", "Vec<i16>"), ("unit", "CChar"), ("inner", "N"), ("list", "Vec<N>")]
    named = [(k, t.replace("CChar", next(p for p in PRIMS if "CChar" in p))) for k, t in named]
    ps["C17N"].append(P("req", "Msgs", [("M", S("M", [TS] + named)), ("Other", None)], [n]))
    ps["C17N"].append(P("opt", "Msgs", [("M", S("M", [TS] + [(k, f"Option<{t}>") for k, t in named[::-1]]))], [n]))
    # --- C18
    nn = S("N", [("na", "u16"), ("nb", "Option<u8>")])
    t = [TS, ("fa", "u16"), ("fb", "Option<u32>"), ("fc", "u8", "renamed_c")]
    ps["C18"].append(P("flat", "Msgs", [("T", S("T", t)), ("Other", None)]))
    ps["C18"].append(P("flat_noother", "Msgs", [("T", S("T", t[1:]))]))
    for k, ty in enumerate(["N", "Vec<N>", "Option<N>", "Option<Vec<N>>"]):
        ps["C18"].append(P(f"nest{k}", "Msgs", [("T", S("T", [("fa", "Option<u16>"), ("nf", ty)]))], [nn]))
    ps["C18"].append(P("pads", "Msgs", [("T", S("T", [TS, ("_padding0", "Option<Vec<u8>>"), ("fa", "Option<u16>")]))]))
    ps["C18"].append(P("padr", "Msgs", [("T", S("T", [("fa", "Option<u16>"), ("_padding0", "Vec<u8>")]))]))
    ps["C18"].append(P("opts", "Msgs", [("T", S("T", [("fa", "Option<u16>"), ("fb", "Option<u32>"), ("fc", "Option<u8>", "renamed_c")]))]))
    ps["C18"].append(P("many", "Msgs", [("T", S("T", [("fa", "u16"), ("fb", "u32"), ("fc", "u8", "renamed_c"), ("fd", "u64"), ("fe", "i8")]))]))
    ps["C18"].append(P("lots", "Msgs", [("T", S("T", [TS] + [(f"k{j}", ["u8", "u16", "i8"][j % 3]) for j in range(10)])), ("Other", None)]))
    mid = S("Mid", [("d", "Option<u8>"), ("n", "N"), ("ns", "Option<Vec<N>>")])
    ps["C18"].append(P("deep", "Msgs", [("T", S("T", [("mids", "Vec<Mid>"), ("mid", "Option<Mid>"), ("fa", "Option<u16>")]))], [nn, mid]))
    near = [("volt", "u16"), ("volt_raw", "Option<u8>"), ("raw_volt", "u8"), ("vol", "Option<u32>"), ("voltage", "i8")]
    ps["C18"].append(P("near", "Msgs", [("T", S("T", near)), ("Other", None)]))
    ps["C18"].append(P("near_rev", "Msgs", [("T", S("T", [TS] + [(n, ty[7:-1] if ty.startswith("Option") else f"Option<{ty}>") for n, ty in near[::-1]]))]))
    ps["C18"].append(P("near_all", "Msgs", [("T", S("T", [(n, ty[7:-1] if ty.startswith("Option") else ty) for n, ty in near]))]))
    ps["C18"].append(P("solo", "Msgs", [("T", S("T", [TS, ("volt", "Option<u16>")])), ("Other", None)]))
    ps["C18"].append(P("solo_req", "Msgs", [("T", S("T", [("volt", "u16"), ("timestamp", "Option<u64>")]))]))
    ps["C18"].append(P("solo_vec", "Msgs", [("T", S("T", [("volt", "Vec<u16>", "volt_raw1"), ("at", "Option<u64>", "_timestamp")]))]))
    em, emo, emr = S("Em", []), S("EmO", [("a", "Option<u8>")]), S("EmR", [("r", "u8")])
    ps["C18"].append(P("empties", "Msgs", [("T", S("T", [("one", "Option<Em>"), ("many", "Vec<Em>"), ("os", "Vec<EmO>"), ("oo", "Option<EmO>")])), ("Other", None)], [em, emo]))
    ps["C18"].append(P("empties_req", "Msgs", [("T", S("T", [("one", "Em"), ("many", "Option<Vec<Em>>"), ("os", "Option<Vec<EmR>>"), ("oo", "Option<EmR>")]))], [em, emr]))
    out = "//! Generated by tools/gen_programs.py fixed. Derived programs of C16-C19.\n#![allow(warnings)]\nuse crate::rt::Prog;\n"
    for c, l in ps.items():
        for p in l:
            out += f"pub mod {c.lower()}_{p.name} {{\n{p.module()}}}\n"
        out += f"pub fn {c.lower()}() -> Vec<Prog> {{\n    vec![{', '.join(f'{c.lower()}_{p.name}::prog()' for p in l)}]\n}}\n"
    with open(os.path.join(ROOT, "mcd/src/progs.rs"), "w") as f:
        f.write(out)


# ---------------------------------------------------------------- C25: the grid

ENUMS = ["Msgs", "LoggedMessages", "E", "LogMsg2", "Some_Name", "lower", "UlogMessage", "Other", "Data", "ULogData", "r#enum", "Accessor", "X1Y2", "Message", "ULogAccessor", "HashSet", "FromField", "R", "S", "yule_log", "std"]
STRUCTS = ["VehicleLocalPosition", "A", "GPSPosition", "Imu2Data", "GPS2Fix", "snake_named", "Snake_Camel", "HTTPServerX", "ABCd", "X", "Ab1", "Format", "r#struct", "Field", "UlogMessage2", "LoggedData", "Accessor", "ULogParser", "FromField", "ULogAccessor", "HashMap", "Read", "ULogError", "UlogMessage", "R", "T", "yule_log", "std"]
VARIANTS = ["VehicleLocalPosition", "V", "Other", "Some", "None", "Ok", "Err", "UlogMessage", "LoggedData", "lower", "r#type", "Self_", "A_B", "AddSubscription", "Raw2", "R", "Item"]
FORWARDS = [None, (0, "Other"), (1, "Other"), (9, "Other"), (9, "Raw"), (0, "UlogMessage"), (9, "LoggedData"), (9, "None"), (1, "Err"), (9, "VehicleX")]
SUBS = [None, "vehicle_attitude", "a", "Camel", "x-y/z", "under_", "_lead", "A9", "other", "UPPER"]
MULTIS = [None, 0, 1, 2, 127, 128, 255]
FIELDS = ["x", "timestamp", "r#type", "format", "map", "missing", "result", "field", "data", "idx", "index", "x_index", "_x", "x1", "_padding0", "self_", "msg", "sub", "acc", "value", "name", "fields", "ty", "a_b_c", "x__y", "trailing_", "r#fn", "e", "f", "o", "i"]
FNAMES = [None, "renamed", "x2", "Camel", "_padding1", "timestamp2", "A_B"]
VIS = ["pub ", "", "pub(crate) ", "pub(super) "]
IMPORTS = [("use yule_log::{ULogData, ULogMessages};\n", "ULogData", "ULogMessages"), ("", "yule_log::ULogData", "yule_log::ULogMessages"), ("", "::yule_log::ULogData", "::yule_log::ULogMessages"),
           ("use yule_log::*;\n", "ULogData", "ULogMessages"), ("use yule_log::{ULogData as D, ULogMessages as M};\n", "D", "M"), ("", "Debug, Clone, PartialEq, yule_log::ULogData", "Debug, yule_log::ULogMessages"),
           ("use yule_log::model::msg::*;\nuse yule_log::*;\n", "ULogData", "ULogMessages"), ("use std::io::Read;\nuse std::collections::HashMap;\nuse yule_log::errors::ULogError;\nuse yule_log::{ULogData, ULogMessages};\n", "ULogData", "ULogMessages")]
BEFORE = ["", "/// Documented.\n", "#[allow(dead_code)]\n", "#[repr(C)]\n"]
PLACES = ["here", "structs-in-module", "enum-in-module", "in-function", "alias"]
TYPES = PRIMS + [f"Vec<{p}>" for p in PRIMS] + ["N", "Vec<N>"]
TYPES += [f"Option<{t}>" for t in TYPES] + ["std::option::Option<u8>", "::core::option::Option<Vec<f32>>", "std::vec::Vec<u16>", "std::primitive::u8", "super::Opaque"]

MACROS = ["ty", "ty2", "path", "inner", "all", "tt", "item", "paren", "paren2", "macro-paren"]
SPELLINGS = [
    ("multi_id = 16", "multi_id = 0x10"), ("multi_id = 16", "multi_id = 16u8"), ("multi_id = 16", "multi_id = 0b1_0000"), ("multi_id = 16", "multi_id = 0o20_u8"), ("multi_id = 16", "multi_id = 016"), ("multi_id = 16", "multi_id = 16,"),
    ('subscription_name = "some_sub"', 'subscription_name = r"some_sub"'), ('subscription_name = "some_sub"', 'subscription_name = r#"some_sub"#'), ('subscription_name = "some_sub"', 'subscription_name = "some\\u{5f}sub"'),
    ('subscription_name = "some_sub"', 'subscription_name = "\\x73ome_\\\n      sub"'), ('subscription_name = "some_sub", multi_id = 16', 'multi_id = 16, subscription_name = "some_sub"'),
    ('#[yule_log(subscription_name = "some_sub", multi_id = 16)]', '#[cfg_attr(all(), yule_log(subscription_name = "some_sub", multi_id = 16))]'),
    ('#[yule_log(subscription_name = "some_sub", multi_id = 16)]', '#[yule_log(subscription_name = "some_sub")]\n/// Between.\n#[cfg_attr(all(), yule_log(multi_id = 16))]'),
    ('#[yule_log(subscription_name = "some_sub", multi_id = 16)]', '#[yule_log(multi_id = 16)]\n#[allow(unused)]\n#[yule_log(subscription_name = "some_sub")]'),
    ('#[yule_log(subscription_name = "some_sub", multi_id = 16)]', '#[yule_log()]\n#[yule_log{subscription_name = "some_sub", multi_id = 16}]'),
    ('#[yule_log(subscription_name = "some_sub", multi_id = 16)]', '#[yule_log[subscription_name = "some_sub", multi_id = 16]]\n#[yule_log()]'),
    ('#[yule_log(field_name = "renamed")]', '/// Field.\n    #[cfg_attr(all(), yule_log(field_name = "renamed"))]\n    #[allow(unused)]'), ('#[yule_log(field_name = "renamed")]', '#[yule_log(field_name = r"renamed")]'), ('#[yule_log(field_name = "renamed")]', '#[yule_log()]\n    #[yule_log(field_name = "renamed",)]'),
    ("    pub x: u16,\n", "    #[cfg(all())]\n    pub x: u16,\n    #[cfg(any())]\n    pub gone: u8,\n"), ("    pub x: u16,\n", "    #[cfg(any())]\n    #[yule_log(field_name = \"zz\")]\n    pub x: u8,\n    /** of several\n words */\n    pub x: u16,\n"),
    ("    #[yule_log(forward_other)]\n", "    #[cfg_attr(all(), yule_log(forward_other))]\n"), ("    #[yule_log(forward_other)]\n", "    /// Others.\n    #[yule_log(forward_other)]\n    #[allow(unused)]\n"), ("    #[yule_log(forward_other)]\n", "    #[cfg(any())]\n    #[yule_log(forward_other)]\n    Gone(u8),\n    #[yule_log(forward_other)]\n"),
    ("    #[yule_log(forward_other)]\n", "    #[yule_log()]\n    #[yule_log(forward_other,)]\n"), ("    V(VehicleLocalPosition),\n", "    #[cfg(any())]\n    V(Missing),\n    /// Mapped.\n    #[allow(unused)]\n    V(VehicleLocalPosition),\n"), ("    V(VehicleLocalPosition),\n", "    V(self::VehicleLocalPosition),\n"),
    ("    V(VehicleLocalPosition),\n", "    V(r#VehicleLocalPosition,),\n"), ("    V(VehicleLocalPosition),\n", "    V(/* in between */ pub_in::VehicleLocalPosition),\n"), ("    V(VehicleLocalPosition),\n", "    V(crate::@::VehicleLocalPosition),\n"),
]
def inner(ty):
    return ty[ty.index("<") + 1:ty.rindex(">")] if "<" in ty else ty
def macroed(text, subs, name, deep=False):
    """The text as the output of a macro whose parameters replace what each of `subs` (text, place, fragment kind) names."""
    params, args = [], []
    for old, where, kind in subs:
        a, hay = f"$a{len(params)}", where.replace("@", old)
        assert hay in text, (hay, text)
        text = text.replace(hay, where.replace("@", a), 1)
        params.append(f"{a}:{kind}")
        args.append(old)
    t = f"macro_rules! {name} {{ ({', '.join(params)}) => {{\n{text}}} }}\n"
    if deep:
        t += f"macro_rules! {name}_deep {{ ({', '.join(params)}) => {{ {name}!({', '.join(p.split(':')[0] for p in params)}); }} }}\n"
    return t + f"{name}{'_deep' if deep else ''}!({', '.join(args)});\n"
def in_macro(mode, text, tys, idents, lits, vis, name):
    """tys: (type, place); idents and lits: (text, place)."""
    if mode == "tt":
        return f"macro_rules! {name} {{ ($($t:tt)*) => {{ $($t)* }} }}\n{name}! {{\n{text}}}\n"
    if mode == "item":
        return f"macro_rules! {name} {{ ($i:item) => {{ $i }} }}\n{name}! {{\n{text}}}\n"
    if mode in ("paren", "paren2", "macro-paren"):
        p = "((%s))" if mode == "paren2" else "(%s)"
        for t, w in tys:
            assert w.replace("@", t) in text
            text = text.replace(w.replace("@", t), w.replace("@", p % t), 1)
        return text if mode != "macro-paren" else macroed(text, [(p % t, w, "ty") for t, w in tys], name)
    if mode == "inner":
        tys = [(inner(t), w.replace("@", t.replace(inner(t), "@", 1)) if "<" in t else w) for t, w in tys]
    subs = [(t, w, "path" if mode == "path" else "ty") for t, w in tys]
    if mode == "all":
        subs += [(t, w, "ident") for t, w in idents] + [(t, w, "literal") for t, w in lits] + [(v, w, "vis") for v, w in vis]
    return macroed(text, subs, name, mode == "ty2")

class Make:
    def __init__(self):
        self.k, self.files, self.seen, self.second = 0, [], set(), []
    def add(self, enum="Msgs", struct="VehicleLocalPosition", variant="V", forward=None, sub=None, multi=None, split=False, fields=None, vis="pub ", evis="pub ", imports=0,
            before="", place="here", more=0, edge="", nested=False, macro=None, spell=None):
        key = repr((macro, spell, enum, struct, variant, forward, sub, multi, split, fields, vis, evis, imports, before, place, more, edge))
        if key in self.seen:
            return
        self.seen.add(key)
        if "yule_log" in (enum, struct):
            imports = 2
        imp, dd, dm = IMPORTS[imports]
        n = Struct("Nn" if struct == "N" else "N", [("na", "u16"), ("nb", "Option<u8>")], derive=dd)
        fields = fields or [TS, ("x", "f32"), ("opt", "Option<u32>")]
        nested = any("N" in f[1].replace("None", "") for f in fields)
        structs = [Struct(struct, fields, sub, multi, vis, split, before, dd)]
        variants = [(variant, structs[0])]
        for j in range(more):
            s = Struct(f"Extra{j}", [TS, (f"e{j}", "u8")], None if j else f"extra_{j}_renamed", j or None, derive=dd)
            variants.append((f"Ex{j}", s))
        if forward:
            variants.insert(min(forward[0], len(variants)), (forward[1], None))
        k = self.k
        self.k += 1
        p = Prog(f"p{k}", enum, variants, [n] if nested else [], imp, evis, before, edge)
        ms = [s for _, s in variants if s]
        if macro:
            st = lambda s: in_macro(macro, s.text(), [(f[1], ": @,\n") for f in s.fields], [(s.name, "struct @ ")] + [(f[0], "pub @: ") for f in s.fields],
                                    ([(f'"{s.sub}"', "subscription_name = @")] if s.sub else []) + ([(str(s.multi), "multi_id = @")] if s.multi is not None else []) +
                                    [(f'"{f[2]}"', "field_name = @") for f in s.fields if len(f) > 2 and f[2]], [(s.vis.strip(), "@ struct")], f"mk_{unraw(s.name)}")
            raw = RAW.lstrip(":")
            t = imp + "".join(st(s) + s.glue() for s in p.structs())
            t += in_macro(macro, p.enum_text(dm), [(s.name if s else raw, f"{v}(@),\n") for v, s in variants], [(enum, "enum @ ")] + [(v, "    @(") for v, _ in variants if macro == "all"], [], [(evis.strip(), "@ enum")], "mk_enum") + p.tail()
        elif spell:
            t = "".join(s.text() for s in p.structs()) + p.enum_text(dm)
            assert spell[0] in t, (spell, t)
            t = imp + t.replace(spell[0], spell[1].replace("@", p.name)) + "".join(s.glue() for s in p.structs()) + p.tail()
            if "pub_in::" in t:
                t += "pub mod pub_in { pub use super::VehicleLocalPosition; }\n"
        elif place == "here":
            t = imp + "".join(s.text() + s.glue() for s in p.structs()) + p.enum_text(dm) + p.tail()
        elif place == "structs-in-module":
            inner = imp + "".join(s.text() + s.glue() for s in p.structs())
            t = f"pub mod inner {{\n{inner}}}\n" + imp + p.enum_text(dm, lambda s: f"inner::{s.name}") + p.tail(lambda s: f"inner::{s.name}")
        elif place == "enum-in-module":
            t = imp + "".join(s.text() + s.glue() for s in p.structs())
            use = "".join(f"use super::{s.name};\n" for s in ms)
            t += f"pub mod inner {{\n{imp}{use}{p.enum_text(dm)}{p.tail()}}}\npub use inner::prog;\n"
        elif place == "in-function":
            t = "pub fn prog() -> ::mcd::rt::Prog {\n" + imp + "".join(s.text() + s.glue() for s in p.structs()) + p.enum_text(dm) + p.tail() + "prog()\n}\n"
        elif place == "alias":
            t = imp + "".join(s.text() + s.glue() for s in p.structs())
            t += "".join(f"type {unraw(s.name)}Alias = {s.name};\n" for s in ms)
            t += p.enum_text(dm, lambda s: f"{unraw(s.name)}Alias") + p.tail(lambda s: f"{unraw(s.name)}Alias")
        self.files.append((f"p{k}", t.replace("super::Opaque", "u8")))

    def crowd(self, names, forward=True):
        """One enum over a struct of each of the given names, with the subscription its name states."""
        structs = [Struct(n, [TS, ("x", PRIMS[j % 11])]) for j, n in enumerate(names)]
        imp, dd, dm = IMPORTS[0]
        p = Prog(f"p{self.k}", "Msgs", [(f"V{j}", s) for j, s in enumerate(structs)] + ([("Other", None)] if forward else []), [], imp)
        self.k += 1
        self.files.append((p.name, imp + "".join(s.text() + s.glue() for s in structs) + p.enum_text(dm) + p.tail()))

    def pair(self, e1="Msgs", e2="Msgs2", s1="A", s2="B", share=True, f1=None, f2=None, place="same"):
        """Two enums in one module, or in a module and one inside it, over the same structs or each its own."""
        imp, dd, dm = IMPORTS[0]
        a, b = Struct(s1, [TS, ("x", "f32"), ("opt", "Option<u32>")]), Struct(s2, [TS, ("y", "Vec<u8>")])
        own = lambda f, vs: vs + ([(f, None)] if f else [])
        k = self.k
        self.k += 2
        p = Prog(f"p{k}", e1, own(f1, [("V", a)] + ([("W", b)] if share else [])), [], imp)
        q = Prog(f"p{k + 1}", e2, own(f2, ([("V", a)] if share else []) + [("W", b)]), [], imp)
        structs = imp + a.text() + a.glue() + b.text() + b.glue()
        if place == "same":
            t = structs + p.enum_text(dm) + q.enum_text(dm) + p.tail() + f"pub mod second {{\nuse super::{{{e2}, {s1}, {s2}}};\n{q.tail()}}}\n"
        else:
            t = structs + p.enum_text(dm) + p.tail() + f"pub mod second {{\n{imp}use super::{{{s1}, {s2}}};\n{q.enum_text(dm)}{q.tail()}}}\n"
        self.files.append((f"p{k}", t))
        self.second.append(f"p{k}")
TOKENS = ["A", "X", "Gps", "HTTP", "2", "3D", "4d", "_", "_x", "io", "V2", "16", "_2d", "_7"]
def camel_names(depth):
    """Names put together from words of several shapes, in groups without two of the same subscription."""
    names = [t for t in itertools.chain.from_iterable(itertools.product(TOKENS, repeat=d) for d in range(1, depth + 1))]
    names = ["".join(n) for n in names]
    names = [n for n in dict.fromkeys(names) if not n[0].isdigit() and n.strip("_") and not n.startswith("__") and snake(n) and not snake(n)[0].isdigit()]
    groups = []
    for n in names:
        g = next((g for g in groups if len(g) < 24 and all(snake(n) != snake(x) and n != x for x in g)), None)
        if g is None:
            groups.append(g := [])
        g.append(n)
    return groups

def grid(thorough):
    m = Make()
    ident_ok = lambda *xs: len(set(unraw(x) for x in xs)) == len(xs)
    # names: every enum x struct, enum x variant, struct x variant, each with and without forward_other
    fw = FORWARDS if thorough else FORWARDS[:4]
    for e in ENUMS:
        for s in STRUCTS if thorough else STRUCTS[::3]:
            if ident_ok(e, s):
                m.add(enum=e, struct=s)
                m.add(enum=e, struct=s, forward=(9, "Other"))
        for v in VARIANTS if thorough else VARIANTS[::4]:
            m.add(enum=e, variant=v, struct="Abc")
            if v != "Other":
                m.add(enum=e, variant=v, struct="Abc", forward=(0, "Other"))
        for f in fw:
            m.add(enum=e, forward=f, more=1)
    for s in STRUCTS:
        for v in VARIANTS if thorough else VARIANTS[::3]:
            m.add(struct=s, variant=v)
    for v in VARIANTS:
        for f in FORWARDS:
            if not f or f[1] != v:
                m.add(variant=v, forward=f)
    # position of forward_other among several variants
    for n in range(0, 4):
        for pos in range(0, n + 2):
            m.add(more=n, forward=(pos, "Other"))
        m.add(more=n)
    # attributes
    for s in SUBS:
        for k in MULTIS:
            for sp in ([False, True] if s is not None and k is not None else [False]):
                for f in [None, (9, "Other")]:
                    m.add(sub=s, multi=k, split=sp, forward=f)
        for st in STRUCTS if thorough else STRUCTS[::4]:
            m.add(sub=s, struct=st)
    for k in MULTIS:
        for st in STRUCTS if thorough else STRUCTS[::4]:
            m.add(multi=k, struct=st, forward=(0, "Raw"))
    # fields: name x override, name x type, pairs of names
    for f in FIELDS:
        for o in FNAMES:
            if f == "timestamp" and o is not None:
                m.add(fields=[(f, "u64" , o), ("y", "u8")], forward=(9, "Other"))
            else:
                m.add(fields=[(f, "u64" if f == "timestamp" else "u16", o), ("y", "u8")], forward=(9, "Other"))
                m.add(fields=[("y", "u8"), (f, "Option<u64>" if f == "timestamp" else "Option<u16>", o)])
    for t in TYPES:
        m.add(fields=[("x", t)])
        m.add(fields=[TS, ("x", t, "renamed")], forward=(0, "Other"))
        if thorough:
            for f in FIELDS[2:]:
                m.add(fields=[(f, t), TS])
    names = FIELDS if thorough else FIELDS[:14]
    for a, b in itertools.permutations(names, 2):
        ty = lambda n: "u64" if n == "timestamp" else "u8"
        if thorough or (names.index(a) + names.index(b)) % 3 == 0:
            m.add(fields=[(a, ty(a)), (b, f"Option<{ty(b)}>")])
    for n in [1, 2, 5, 12, 40]:
        m.add(fields=[(f"f{i}", PRIMS[i % 11] if i % 3 else f"Option<{PRIMS[i % 11]}>") for i in range(n)])
    # swapped names: each field maps the other's name
    m.add(fields=[("a", "u8", "b"), ("b", "u8", "a")])
    m.add(fields=[("a", "Option<u8>", "b"), ("b", "u8", "a"), ("timestamp", "u64")])
    # visibility, imports, placement, other attributes
    for v in VIS:
        for ev in VIS:
            for pl in PLACES:
                if pl != "here" and v == "" and pl == "structs-in-module":
                    continue  # the enum could not name the struct
                if pl == "structs-in-module" and ev == "pub " and v != "pub ":
                    continue
                if pl == "enum-in-module" and ev == "":
                    pass
                if pl == "in-function" and "(" in v + ev:
                    continue
                m.add(vis=v, evis=ev, place=pl, forward=(9, "Other"))
                m.add(vis=v, evis=ev, place=pl, struct="A", more=1 if v == "pub " else 0)
    for i in range(len(IMPORTS)):
        for pl in PLACES:
            for f in [None, (1, "Other")]:
                m.add(imports=i, place=pl, forward=f, fields=[TS, ("x", "f32"), ("o", "Option<u8>")])
        for b in BEFORE:
            if b != "#[repr(C)]\n":
                m.add(imports=i, before=b)
    # types in parentheses or from macro fragments, whole programs from macros
    for mode in MACROS:
        for f in FORWARDS[:4] if thorough else FORWARDS[:2]:
            for fields in [None, [TS, ("v", "Vec<u16>"), ("o", "Option<Vec<f32>>", "renamed"), ("b", "bool")], [("n", "N"), ("on", "Option<N>"), ("vn", "Vec<N>"), ("ns", "Option<Vec<N>>"), TS]]:
                for sub, multi, more in [(None, None, 0), ("a", 3, 2)]:
                    m.add(macro=mode, forward=f, fields=fields, sub=sub, multi=multi, more=more)
    # other ways to write the same attributes and types
    for sp in SPELLINGS:
        for split in (False, True) if "some_sub" not in sp[0] else (False,):
            m.add(spell=sp, sub="some_sub", multi=16, split=split, forward=(9, "Other"), fields=[TS, ("x", "u16"), ("y", "Option<u8>", "renamed")], more=1)
    # two enums in one module
    for e1, e2 in [("Msgs", "Msgs2"), ("Msgs", "MsgsBuilder"), ("MsgsBuilder", "Msgs"), ("Msgs", "MsgsAccessor"), ("Msgs", "MSGS"), ("Msgs", "msgs"), ("Msgs", "Msg_s"), ("E", "F"), ("r#enum", "Enum"), ("Msgs", "builder_Msgs"), ("Msgs", "stream_Msgs"), ("Msgs", "accessor_Msgs"), ("Msgs", "_Msgs")]:
        for share in (False, True):
            for f1, f2 in [(None, None), ("Other", None), (None, "Other"), ("Other", "Other")]:
                m.pair(e1, e2, share=share, f1=f1, f2=f2)
    for e2 in ["Msgs", "Msgs2"]:
        for share in (False, True):
            m.pair("Msgs", e2, share=share, f1="Other", place="inner")
    for s1, s2 in [("A", "a"), ("A", "AAccessor"), ("AAccessor", "A"), ("Ab", "aB"), ("A_b", "AB"), ("A", "AIndex"), ("A1", "A_1"), ("A", "AFactory"), ("A", "Accessor")]:
        m.pair(s1=s1, s2=s2, f2="Other")
    # default subscriptions of names of many shapes
    for g in camel_names(3 if thorough else 2):
        m.crowd(g, forward=len(g) % 2 == 0)
    # known deviation: field names that are not snake case
    for f in ["camelCase", "X", "yawRate2", "PascalCase"]:
        m.add(fields=[TS, (f, "f32")], edge="camel")
        m.add(fields=[TS, (f, "Option<f32>")], edge="camel", forward=(9, "Other"))
    return m.files, m.second

def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if os.path.exists(path) and open(path).read() == text:
        return
    with open(path, "w") as f:
        f.write(text)

PARTS = 8

def emit_grid(tier, d):
    files, second = grid(tier == "thorough")
    man = lambda name, deps: f"""[package]
name = "{name}"
version = "0.1.0"
edition = "2021"
publish = false
{deps}
[dependencies]
yule_log = {{ path = "/repo/core", features = ["macros"] }}
mc = {{ path = "{ROOT}/mc" }}
mcd = {{ path = "{ROOT}/mcd", default-features = false }}
"""
    prof = """
[profile.dev]
opt-level = 0
debug = 0
incremental = false
codegen-units = 16
"""
    for k in range(PARTS):
        part = files[k::PARTS]
        keep = {f"{n}.rs" for n, _ in part} | {"lib.rs"}
        src = os.path.join(d, f"part{k}/src")
        os.makedirs(src, exist_ok=True)
        for f in os.listdir(src):
            if f not in keep:
                os.remove(os.path.join(src, f))
        for n, t in part:
            write_if_changed(os.path.join(src, n + ".rs"), t)
        lib = "#![allow(warnings)]\n" + "".join(f"mod {n};\n" for n, _ in part)
        lib += "pub fn progs() -> Vec<mcd::rt::Prog> {\n    vec![" + ", ".join(f"{n}::prog()" + (f", {n}::second::prog()" if n in second else "") for n, _ in part) + "]\n}\n"
        write_if_changed(os.path.join(src, "lib.rs"), lib)
        write_if_changed(os.path.join(d, f"part{k}/Cargo.toml"), man(f"part{k}", ""))
    main = "fn families(_: mc::engine::Tier) -> Vec<mc::engine::Family> {\n    let mut v = vec![];\n"
    main += "".join(f"    v.extend(part{k}::progs());\n" for k in range(PARTS))
    main += "    v.sort_by_key(|p| p.name[1..].parse::<u32>().unwrap_or(0));\n    mcd::grid::families(v)\n}\nfn main() {\n    mc::engine::main(&[mcd::grid::check(families)])\n}\n"
    write_if_changed(os.path.join(d, "src/main.rs"), main)
    write_if_changed(os.path.join(d, "Cargo.toml"), man("grid", "\n[workspace]\n") + "".join(f'part{k} = {{ path = "part{k}" }}\n' for k in range(PARTS)) + prof)
    lock = open(os.path.join(ROOT, "mcd/Cargo.lock")).read()
    p = os.path.join(d, "Cargo.lock")
    if not os.path.exists(p):
        write_if_changed(p, lock)
    print(len(files) + len(second), "programs")

if __name__ == "__main__":
    if sys.argv[1] == "fixed":
        fixed()
    else:
        emit_grid(sys.argv[2], sys.argv[3])
