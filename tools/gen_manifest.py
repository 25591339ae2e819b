#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run by hand when a check is added)."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
IDS = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
CLAIMED = [c.strip() for c in open(os.path.join(ROOT, "tools", "claimed.txt")).read().split()]
TECH = {
 "P": ("bounded-exhaustive explicit-state exploration: every parser program x input x offset up to the bounds, real parser replayed against a reference-model interpreter",
       "Exhaustive within the stated bounds (program size, alphabet, input length, history length): each enumerated program is built from the real crate, run at every offset of every word and compared with the reference interpreter on value, consumed length and commitment. Trusts the hand-written reference semantics; says nothing about larger programs or inputs."),
 "C": ("bounded-exhaustive enumeration of expressions, instants and call histories on the real code against a calendar reference model",
       "Exhaustive within the stated bounds over expressions, calendar instants and iteration histories on the real code. Trusts the hand-written cron reference and chrono's civil-calendar arithmetic (cross-checked by an independent day-number computation)."),
 "U": ("bounded-exhaustive enumeration of texts and construction histories on the real code against an RFC 3986 reference model",
       "Exhaustive within the stated bounds over component token sequences, truncations and builder-call histories on the real code. Trusts the hand-written RFC 3986 recogniser."),
 "H": ("bounded-exhaustive enumeration of documents, layouts and faults on the real code against a configuration reference model",
       "Exhaustive within the stated bounds over documents, layouts, truncations and file faults on the real code. Trusts the hand-written reference of HOCON merge/substitution/units."),
 "T": ("bounded-exhaustive enumeration of programs on the real interpreter against a reference small-step model",
       "Exhaustive within the stated bounds over syntax trees and layouts on the real parser and interpreter. Trusts the hand-written reference evaluator."),
}
checks = []
for i in IDS:
    if i not in CLAIMED: continue
    t, n = TECH[i[0]]
    checks.append(dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
                       evidence_file=f"evidence/{i}.json", technique=t, level="model_checking", level_note=n))
na = [dict(property=i, reason="not built yet") for i in IDS if i not in CLAIMED]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks: every check uses the crates' public API (toys, a bin crate, is compiled from its own source files by the harness). Checks run 8 worker processes. Bounds per tier are in each evidence file and in DESIGN.md.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
print(len(checks), "claimed", len(na), "not")
