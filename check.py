#!/usr/bin/env python3-vt
import argparse, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import harness
a = argparse.ArgumentParser()
a.add_argument("prop")
a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
a.add_argument("--only")
a.add_argument("-v", action="store_true")
n = a.parse_args()
sys.exit(harness.main(n.prop, n.tier, int(os.environ.get("VERIF_SEED", "1") or 1), n.only, n.v))
