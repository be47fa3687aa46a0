#!/usr/bin/env python3
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
TECH = "contract-based deductive verification of the code in /repo (LLVM IR extracted on every run; VC generator + z3)"
CLAIM = json.load(open(os.path.join(V, "tools/claims.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CLAIM.get(p["id"])
    if c and not c.get("na"):
        checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py %s --tier quick" % p["id"],
                           thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
                           technique=TECH, level=c.get("level", "proof"), level_note=c["note"]))
    else:
        na.append(dict(property=p["id"], reason=(c or {}).get("na", "the contracts for this property are not built yet")))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3' && clang++ --version >/dev/null && llvm-cxxfilt --version >/dev/null",
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
