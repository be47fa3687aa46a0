#!/usr/bin/env python3
"""runs the check of every seed's property (or the seeds named) on a scratch copy with the seed applied; records the outcome in tools/design/caught.json"""
import json, os, re, subprocess, sys, glob
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
P = V + "/tools/design/caught.json"
d = json.load(open(P)) if os.path.exists(P) else {}
ids = sys.argv[1:] or sorted(os.path.basename(os.path.dirname(f)) for f in glob.glob(V + "/seeded/*/meta.json"))
for i in ids:
    prop = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
    t = subprocess.run([V + "/tools/seedcheck.sh", i], capture_output=True, text=True, cwd=V).stdout
    rc = re.search(r"exit (\d+)", t).group(1)
    m = re.search(r"(\d+) obligations, (\d+) discharged", t)
    f = int(m.group(1)) - int(m.group(2)) if m else 0
    r = []
    if rc != "1" or "VIOLATION" not in t:
        r = ["**missed**"]
    else:
        r.append(prop)
        o = re.search(r"failed obligation: (.*)", t)
        if o:
            r.append("obligation `%s`" % o.group(1)[:90].replace("|", "/"))
        elif "undecided:" in t:
            r.append("obligations not generated for the changed code")
        r.append("failing input found" if "failing input:" in t else "no failing input")
    d[i] = "; ".join(r)
    print(i, d[i], flush=True)
    json.dump(d, open(P, "w"), indent=1, sort_keys=True)
