#!/usr/bin/env python3
"""C27: misuse.py check TIER DIR | replay FILE. Every misuse of the derives, at every site, must be a compile error, and the same program without the
misuse must compile. Exit 0 held, 1 violation, 2 no answer."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from gen_programs import write_if_changed

# attribute arguments; where each is supported, and whether it can be given to a program unchanged otherwise
VARIANT = ["forward_other", "forward_other = true", "forward_other = false"]
STRUCT = ['subscription_name = "n"', "multi_id = 1", "multi_id = 0", "multi_id = 255", 'subscription_name = "n", multi_id = 2']
FIELD = ['field_name = "x"']
BAD = ["forward_others", "forward", "Forward_other", "unknown", 'rename = "x"', "skip", "default", "forward_other = 3", 'forward_other = "maybe"', "forward_other(true)",
       "multi_id = 256", "multi_id = -1", "multi_id = 1.5", 'multi_id = "x"', "multi_id = true", "multi_id", "multi_ids = 1", "multi_id(1)", "multi_id = 65536",
       "subscription_name", "subscription_name = 5", "subscription_name = n", 'subscription = "n"', 'name = "n"', 'subscription_name("n")',
       "field_name", "field_name = 5", 'field = "x"', "field_name = true",
       "multi_id = 1, multi_id = 2", "multi_id = 1, multi_id = 1", 'subscription_name = "n", subscription_name = "m"', 'field_name = "x", field_name = "y"', "forward_other, forward_other",
       'multi_id = 1, unknown', 'subscription_name = "n", field_name = "x"', "forward_other, multi_id = 1", 'field_name = "x", multi_id = 1', 'field_name = "x", skip', "forward_other, unknown", "unknown, forward_other"]
SITES = ["enum", "mapped", "forward", "inner", "forward_inner", "struct", "field", "option", "last_field"]
def supported(site, a):
    return a in {"mapped": [VARIANT[2]], "forward": VARIANT[:2], "struct": STRUCT, "field": FIELD, "option": FIELD, "last_field": FIELD}.get(site, [])

class P:
    """One program; every part can be overridden."""
    def __init__(self, **k):
        self.__dict__.update(dict(name="", enum_attr="", mapped_attr="", forward_attr="#[yule_log(forward_other)]", inner_attr="", forward_inner_attr="", struct_attr="", field_attr="", option_attr="", last_field_attr="",
            enum="pub enum E {VARIANTS}", mapped="A(INNERA)", order=0, second="", forward=True, struct="pub struct A {FIELDS}", pre="", derive_a="#[derive(yule_log::ULogData)]", derive_e="#[derive(yule_log::ULogMessages)]", extra=""))
        self.__dict__.update(k)
    def text(self):
        fields = f"{{ timestamp: u64, {self.field_attr} x: f32, {self.option_attr} o: Option<u8>, {self.last_field_attr} z: Vec<u16>, }}"
        st = self.struct.replace(" {FIELDS}", " " + fields)
        m = f"{self.mapped_attr} " + self.mapped.replace("INNER", self.inner_attr + " ")
        vs = [m] + ([self.second] if self.second else [])
        f = [f"{self.forward_attr} Other({self.forward_inner_attr} yule_log::model::msg::UlogMessage)"] if self.forward else []
        vs = [vs + f, f + vs, vs[:1] + f + vs[1:]][self.order % 3]
        en = self.enum.replace("{VARIANTS}", "{ " + ", ".join(vs) + " }")
        b = "#[derive(yule_log::ULogData)] pub struct B { timestamp: u64, y: u8 }"
        return f"#![allow(warnings)]\n{self.pre}\n{self.derive_a}\n{self.struct_attr}\n{st}\n{b}\n{self.extra}\n{self.derive_e}\n{self.enum_attr}\n{en}\nfn main() {{}}\n"

def programs(thorough):
    """(name, text, must compile)"""
    out = {}
    def add(ok, why, **k):
        t = P(**k).text()
        assert t not in out or out[t][1] == ok, why
        out.setdefault(t, (why, ok))
    def pair(why, bad, **good):
        add(True, "without: " + why, **good)
        add(False, why, **{**good, **bad})
    ctx = [dict(order=o, second=s) for o in range(3) for s in ("", "B(B)")] if thorough else [dict(order=0, second=""), dict(order=1, second="B(B)")]
    plain = [c | dict(forward=False) for c in ctx[:2]] if thorough else [dict(forward=False)]
    # attributes: every argument list at every site
    for site in SITES:
        for a in VARIANT + STRUCT + FIELD + BAD:
            for c in ctx + (plain if "forward" not in site else []):
                ok = supported(site, a)
                cc = {"mapped": "#[yule_log(forward_other)]"}
                if site == "forward" and not ok and "forward_other" not in a:
                    # the variant keeps its own attribute next to the wrong one
                    k = {"forward_attr": f"#[yule_log(forward_other)] #[yule_log({a})]"}
                else:
                    k = {site + "_attr": f"#[yule_log({a})]"}
                add(ok, f"#[yule_log({a})] on the {site} {c}", **c, **k)
        for raw in ["#[yule_log = 5]", '#[yule_log = "n"]', "#[yule_log(5)]", '#[yule_log("n")]', "#[yule_log[multi_id]]", "#[yule_log(multi_id == 1)]", "#[yule_log(,)]"]:
            for c in ctx[:2]:
                k = {site + "_attr": raw if site != "forward" else "#[yule_log(forward_other)] " + raw}
                add(False, f"{raw} on the {site} {c}", **c, **k)
    # the same argument in two attributes
    for c in ctx:
        pair(f"multi_id twice {c}", dict(struct_attr="#[yule_log(multi_id = 1)] #[yule_log(multi_id = 2)]"), struct_attr='#[yule_log(multi_id = 1)] #[yule_log(subscription_name = "n")]', **c)
        pair(f"forward_other twice {c}", dict(forward_attr="#[yule_log(forward_other)] #[yule_log(forward_other)]"), **c)
    # shapes
    U = "yule_log::model::msg::UlogMessage"
    for c in ctx:
        o = f" {c}"
        for en in ["pub enum E<T> {VARIANTS}", "pub enum E<'a> {VARIANTS}", "pub enum E<const N: usize> {VARIANTS}", "pub enum E where u8: Copy {VARIANTS}", "pub enum E<T = u8> {VARIANTS}"]:
            # the parameters are used, so that the enum alone would compile
            use = {"E<T>": "Gen(std::marker::PhantomData<T>)", "E<'a>": "Gen(&'a u8)", "E<T = u8>": "Gen(std::marker::PhantomData<T>)"}
            pair("generic " + en + o, dict(enum=en), **c)
        for en in [f"pub struct E {{ a: A }}", "pub struct E(A);", "pub struct E;", "pub union E { a: u8, b: u16 }"]:
            pair("ULogMessages on " + en + o, dict(enum=en), **c)
        for v in ["A(A, B)", "A()", "A { a: A }", "A(A, u8)", "A(UL, A)".replace("UL", U), "A(u8)", "A(Vec<A>)", "A(Box<A>)", "A(&'static A)", "A([A; 1])", "A((A,))", f"A({U})", "A(Plain)", "A(E2)", "A(fn() -> A)"]:
            pair("variant " + v + o, dict(mapped=v), extra="pub struct Plain { x: u8 } pub enum E2 { Z(B) }", **c)
        for f in [f"Other({U}, u8)", f"Other()", "Other(u8)", "Other(A)", f"Other(Box<{U}>)", f"Other {{ m: {U} }}", "Other"]:
            pair("forward variant " + f + o, dict(forward=False, second=(c["second"] + ", " if c["second"] else "") + "#[yule_log(forward_other)] " + f), **c)
        two = f"#[yule_log(forward_other)] Rest({U})"
        pair("two forward_other" + o, dict(second=(c["second"] + ", " if c["second"] else "") + two), **c)
        if c["order"] % 3 == 0:
            pair("two forward_other in front" + o, dict(enum="pub enum E { " + two + ", A(A), #[yule_log(forward_other)] Other(" + U + ") }"), **c)
        for st in ["pub struct A(u64, f32);", "pub struct A(u64);", "pub enum A { X }", "pub enum A { X(B), Y }", "pub union A { a: u8, b: u16 }",
                   "pub struct A<T> { timestamp: u64, x: T }", "pub struct A<'a> { timestamp: u64, x: &'a u8 }", "pub struct A<const N: usize> { timestamp: u64 }", "pub struct A<T = u8> { timestamp: T }",
                   "pub struct A where u8: Copy { timestamp: u64 }", "pub struct A<T> where T: Copy { timestamp: T }"]:
            pair("ULogData on " + st + o, dict(struct=st), **c)
            # the derive alone, on a type that nothing else uses
            alone = dict(enum="pub enum E { B(B) }")
            pair("unused, ULogData on " + st + o, dict(struct=st), **c, **alone)
        pair("variant of a type without ULogData" + o, dict(derive_a=""), **c)
    return [(f"b{i:04}", w, t, ok) for i, (t, (w, ok)) in enumerate(sorted(out.items(), key=lambda x: x[1]))]

def emit(ps, d):
    src = os.path.join(d, "src/bin")
    os.makedirs(src, exist_ok=True)
    keep = {p[0] + ".rs" for p in ps}
    for f in os.listdir(src):
        if f not in keep:
            os.remove(os.path.join(src, f))
    for n, _, t, _ in ps:
        write_if_changed(os.path.join(src, n + ".rs"), t)
    write_if_changed(os.path.join(d, "src/lib.rs"), "pub use yule_log;\n")
    write_if_changed(os.path.join(d, "Cargo.toml"), """[package]
name = "misuse"
version = "0.1.0"
edition = "2021"
publish = false

[workspace]

[dependencies]
yule_log = { path = "/repo/core", features = ["macros"] }

[profile.dev]
debug = 0
incremental = false
""")
    if not os.path.exists(os.path.join(d, "Cargo.lock")):
        write_if_changed(os.path.join(d, "Cargo.lock"), open(os.path.join(ROOT, "mcd/Cargo.lock")).read())

def cargo(d, *a):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(os.environ.get("CARGO_TARGET_DIR", ROOT + "/target"), "misuset"))
    return subprocess.run(["cargo", "check", "--offline", "--message-format=json", *a], cwd=d, env=env, capture_output=True, text=True)

def results(out):
    """bin -> its errors"""
    errs, fine = {}, set()
    for l in out.splitlines():
        if not l.startswith("{"):
            continue
        m = json.loads(l)
        if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
            errs.setdefault(m["target"]["name"], []).append(m["message"]["rendered"])
        elif m.get("reason") == "compiler-artifact":
            fine.add(m["target"]["name"])
    return errs, fine

def judge(ps, errs, fine):
    bad = []
    for n, why, t, ok in ps:
        if n in errs and n in fine or n not in errs and n not in fine:
            return None, f"{n}: no compiler verdict"
        if ok and n in errs:
            bad.append((n, f"a supported program does not compile ({why}): {errs[n][0]}", t, ok))
        if not ok and n in fine:
            bad.append((n, f"accepted and silently ignored: {why}", t, ok))
    return bad, None

def main():
    t0 = time.time()
    mode = sys.argv[1]
    base = os.environ.get("CARGO_TARGET_DIR", ROOT + "/target")
    if mode == "replay":
        head, text = open(sys.argv[2]).read().split("\n----\n", 1)
        h = dict(l.split("=", 1) for l in head.splitlines() if "=" in l)
        ps = [("b0", h["what"], text, h["compiles"] == "yes")]
        d, tier = os.path.join(base, "misuse-replay"), "quick"
    else:
        tier = sys.argv[2]
        ps = programs(tier == "thorough")
        d = os.path.join(base, "misuse-" + tier)
    emit(ps, d)
    r = cargo(d, "--lib")
    if r.returncode:
        print("build failed:", file=sys.stderr)
        print(r.stderr[-3000:], file=sys.stderr)
        for l in results(r.stdout)[0].values():
            print("\n".join(l)[:3000], file=sys.stderr)
        return 2
    r = cargo(d, "--bins", "--keep-going")
    errs, fine = results(r.stdout)
    bad, none = judge(ps, errs, fine)
    if none:
        print(none, r.stderr[-2000:], file=sys.stderr)
        return 2
    rej = sum(1 for p in ps if p[0] in errs)
    print(f"C27: {len(ps)} programs, {rej} rejected, {len(ps) - rej} compiled, {len(bad)} violations, {time.time() - t0:.1f}s")
    if mode != "replay":
        heads = sorted({e.splitlines()[0] for v in errs.values() for e in v})
        ev = {"property": "C27", "tier": tier, "seed": int(os.environ.get("VERIF_SEED", 0)), "level": "model_checking",
              "coverage": {"states": len(ps), "transitions": len(ps), "traces_validated_against_impl": len(ps), "exhaustive": not bad,
                           "rule": "states = distinct programs, each compiled against /repo's derives; every misuse next to the same program without it",
                           "rejected": rej, "compiled": len(ps) - rej, "distinct_errors": len(heads),
                           "samples": [f"{p[1]} -> {'rejected' if p[0] in errs else 'compiled'}" for p in ps[:: max(1, len(ps) // 12)]]},
              "assumptions": ["rustc rejects a program exactly if it reports an error"], "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
        write_if_changed(os.path.join(ROOT, "evidence/C27.json"), json.dumps(ev, indent=1))
    for n, what, t, ok in bad[:20]:
        p = sys.argv[2] if mode == "replay" else os.path.join(ROOT, f"replays/C27-{n}.txt")
        if mode != "replay":
            write_if_changed(p, f"property=C27\ntier={tier}\ncompiles={'yes' if ok else 'no'}\nwhat={what.splitlines()[0]}\n----\n{t}")
        print("C27:", what[:600])
        print(f"VIOLATION property=C27 replay={p}")
    return 1 if bad else 0
sys.exit(main())
