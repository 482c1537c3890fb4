#!/usr/bin/env python3
"""Line-level mutants of a Rust source file, for measuring the checks (not used by any check).
mutate.py list FILE -> JSON list of [line number, old line, new line]"""
import json, re, sys
OPS = [
 (r"==", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
 (r"&&", "||"), (r"\|\|", "&&"), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " = "), (r" -= ", " += "),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\b3\b", "2"),
 (r"\b4\b", "5"), (r"\b8\b", "7"), (r"\b(\d\d+)\b", lambda m: str(int(m.group(1)) + 1)),
 (r" \* ", " + "), (r" & ", " | "), (r"\.any\(", ".all("), (r"\bSome\((\w+)\)$", "None"), (r"saturating_", "wrapping_"),
 (r"\bif (?!let)(.*) \{$", r"if !(\1) {"), (r"\bif (?!let)(.*) \{$", r"if true || \1 {"), (r"\bif (?!let)(.*) \{$", r"if false && \1 {"),
 (r"to_le_bytes", "to_be_bytes"), (r"LittleEndian::read", "byteorder::BigEndian::read"),
 (r"\bu8::", "u16::"), (r"starts_with\(", "ends_with("), (r"\.min\(", ".max("), (r"\.max\(", ".min("),
 (r"State::EOF", "State::ERROR"), (r"State::ERROR", "State::EOF"), (r"State::DATA", "State::DEFINITIONS"), (r"State::DEFINITIONS", "State::DATA"),
 (r"\.contains\(", ".contains(&String::new()) || Some(()).is_none() && true && {let _ = 0; false} || true == x.contains("),
 (r"\.skip\(1\)", ".skip(2)"), (r"take_u8", "take_i8"), (r"take_u16", "take_u32"), (r"\.rev\(\)", ""), (r"\.find\(", ".rfind("),
 (r"continue;", "break;"), (r"break;", "continue;"), (r'b"', 'b" '), (r'"([^"]+)"', r'"\1x"'), (r"b'(.)'", r"b'~'"),
 (r"into_remaining_bytes\(\)", "into_remaining_bytes().into_iter().skip(1).collect::<Vec<u8>>()"),
 (r"\.trim_end_matches", ".trim_matches"), (r":02\}", "}"), (r":#X\}", ":#x}"), (r"\.retain\(\|field\| \{", ".retain(|field| { if field.name.len() > 9 { return true; }"),
]
SWAP = re.compile(r"^(\s*)[^\s/].*;\s*$")
def code_lines(path):
    L = open(path).read().split("\n")
    depth = None
    for i, l in enumerate(L):
        if re.match(r"\s*#\[cfg\(test\)\]", l): break
        s = l.strip()
        if not s or s.startswith("//") or s.startswith("#[") or s.startswith("use ") or "log::" in s: continue
        yield i, l
def mutants(path):
    out, seen = [], set()
    for i, l in code_lines(path):
        c = l.split(" // ")[0]
        cand = []
        for pat, rep in OPS:
            for m in re.finditer(pat, c):
                n = c[:m.start()] + m.expand(rep) + c[m.end():] if isinstance(rep, str) else c[:m.start()] + rep(m) + c[m.end():]
                cand.append(n)
        if SWAP.match(c) and not re.search(r"\b(let|return|use|mod|pub|const|static|type|fn|break|continue)\b", c): cand.append("")
        if re.match(r"\s*return .*;$", c) is None and c.rstrip().endswith("?;") and "let " not in c: cand.append("let _ = " + c.strip()[:-2] + ";")
        for n in cand:
            if n != c and (i, n) not in seen:
                seen.add((i, n)); out.append([i, l, n])
    return out
if __name__ == "__main__":
    print(json.dumps(mutants(sys.argv[2])))
