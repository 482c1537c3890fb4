#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
MC, FE = "model_checking", "fault_enumeration"
common = " Assumes the ULog specification as written in mc/src/refmodel.rs, the std library and rustc; nothing is claimed beyond the stated bounds (evidence lists every family with its case count)."
C = {
"C01": (MC, "exhaustive bounded enumeration of well-formed logs on the real parser and encoder vs input bytes"),
"C02": (MC, "exhaustive bounded enumeration of well-formed logs on the real parser vs an independent reference decoder"),
"C03": (MC, "explicit-state BFS of a reference state machine to fixpoint, every transition replayed on the real parser, plus all histories to a depth"),
"C04": (MC, "explicit-state BFS x all allow-lists, every transition replayed on the real parser, plus all histories to a depth"),
"C05": (FE, "exhaustive crash-point enumeration: every cut of every corpus log x reader kinds vs reference decoder"),
"C06": (FE, "deviation-bounded exhaustive exploration of reader answers (short reads, Interrupted) on the real parser"),
"C07": (FE, "exhaustive fault enumeration: every failing byte x error kind x permanent/transient"),
"C08": (MC, "exhaustive enumeration of mutated and hostile logs with panic/abort/hang/memory monitors on the real code"),
"C09": (MC, "exhaustive insertion of every malformed message at every position (and pair) vs the base run"),
"C10": (MC, "exhaustive enumeration of appended-data offsets vs the reference decoder on the limited range"),
"C11": (MC, "exhaustive enumeration of flag bits (singles and pairs) on the real parser vs specification predicate"),
"C12": (MC, "all 8 option combinations x exhaustively enumerated structure shapes vs projection of the all-on run"),
"C13": (MC, "read-position and live-heap monitor after every item of exhaustively enumerated logs"),
"C14": (MC, "exhaustive enumeration of message kinds x sizes around every limit; framing check and parse-back"),
"C15": (FE, "exhaustive enumeration of failing bytes and deviation-bounded writer answers on the real encoder"),
"C16": (MC, "explicit-state exploration of all histories to a depth on really derived streams vs a reference model"),
"C17": (MC, "exhaustive matrix of Rust field types x logged types x boundary values on derived programs"),
"C18": (MC, "exhaustive permutations, subsets, extras, padding and nestings of logged formats on derived programs"),
"C19": (MC, "all builder-call sequences to a length x histories on derived programs vs a reference model"),
"C20": (MC, "all token sequences and character strings to a length vs an independent reference grammar"),
"C21": (MC, "exhaustive interleaving exploration of parser steps under a controlled scheduler vs each parser alone"),
"C22": (MC, "exhaustive enumeration of values and shapes vs reference renderings"),
"C23": (MC, "all operation sequences to a depth on the real cursors vs a reference cursor"),
"C24": (MC, "corpus in both builds (item digests) and all two-thread interleavings under a turn-taking scheduler"),
"C25": (MC, "exhaustive grid of derive programs, compiled and executed against the expected mapping"),
"C26": (MC, "explicit-state exploration of all histories to a depth with lookups after every item and allow-list changes at all positions vs a reference model"),
"C27": (MC, "exhaustive enumeration of misuse programs (all attribute arguments x all sites, all unsupported shapes), each compiled next to its corrected twin"),
}
m = {"version": 1, "setup_cmd": "bash tools/check.sh setup", "checks": [], "not_applicable": [],
     "notes": "No hooks: everything is reached through the public API. See DESIGN.md. known_findings.txt lists recorded and fixed defects."}
for i, (lv, t) in C.items():
    m["checks"].append({"property": i, "quick_cmd": f"bash tools/check.sh {i} quick", "thorough_cmd": f"bash tools/check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": t, "level": lv,
        "level_note": "Every case of the bounded space is executed on the code built from /repo's working tree and judged by an independent oracle; held on everything enumerated." + common})
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")
json.dump(m, open(p, "w"), indent=1)
