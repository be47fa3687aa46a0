#!/usr/bin/env python3-vt
"""DESIGN.md = tools/design/DESIGN.in.md + what properties, claims, specs, findings and seeds say."""
import json, os, re, sys, importlib, glob
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.path[:0] = [V + "/engine", V + "/specs"]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
claims = json.load(open(V + "/tools/claims.json"))
o = ["## 3. The properties, one by one", "",
     "Every claimed check is a proof (no bound) by contracts; *bounded cross-check* is the native replay, which never counts as proof.", ""]
limits = []
for p in props:
    i = p["id"]
    c = claims.get(i, {})
    o += ["### %s %s" % (i, p["title"]), "", p["statement"], ""]
    if not c or c.get("na"):
        o += ["*Not claimed:* " + c.get("na", "the contracts for this property are not built yet."), ""]
        continue
    s = importlib.import_module(i)
    o += ["*Specified and proved:* " + c["note"]]
    if c.get("oracle"):
        o += ["*Oracle:* " + c["oracle"]]
    if getattr(s, "ASSUMPTIONS", None):
        o += ["*Assumed:* " + "; ".join(s.ASSUMPTIONS) + "."]
    if getattr(s, "NOT_PROVED", None):
        o += ["*Not proved:* " + "; ".join(s.NOT_PROVED) + "."]
        limits += ["* %s: %s." % (i, "; ".join(s.NOT_PROVED))]
    if getattr(s, "REPLAY", None):
        o += ["*Bounded cross-check* (`replay/%s`): %s." % (s.REPLAY[0], getattr(s, "REPLAY_BOUND", ""))]
    o += [""]
kf = [json.loads(l) for l in open(V + "/known-findings.jsonl") if l.strip().startswith("{")]
d = ["| property | commit | what failed |", "|---|---|---|"]
for k in kf:
    if k["kind"] == "fixed":
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", k["line"])
        d.append("| %s | %s | %s |" % m.groups())
    else:
        d.append("| %s | (known, not repaired) | %s |" % (k["property"], k["what"]))
s = ["| seed | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(V + "/tools/design/caught.json"))
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    s.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["needs"], m["what_it_breaks"], caught.get(i, "not run")))
t = open(V + "/tools/design/DESIGN.in.md").read()
for k, v in (("PROPS", o), ("DEFECTS", d), ("SEEDS", s), ("LIMITS", limits)):
    t = t.replace("@@%s@@" % k, "\n".join(v))
open(V + "/DESIGN.md", "w").write(t)
