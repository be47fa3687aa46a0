"""C07: dumped strings."""
from scalars import *
from dumper import wholes
from harness import Target

PROP = "C07"


def targets(tier):
    return [Target("put_string<%s,%s>" % (v, t), "dump.cpp", run_string(t, v), limit=600) for t, v in INST] + [Target("fail<%s,%s>" % (v, t), "dump.cpp", run_fail(t, v)) for t, v in INST] + wholes(("escape", "str"), ("codecs", "escaping"), pretty=(False,))


REPLAY = ("dump.cpp", ["C07"])
REPLAY_BOUND = "native cross-check against an independent writer: every code point below U+3000 and every 61st above (every 7th in thorough), pairs of boundary code points, random strings to 70000 characters, undecodable text, escaping on and off, three instantiations, string and stream output"
ASSUMPTIONS = ["The codecs deliver what C01 proves: the source decoder yields the code points of the text (at most U+10FFFF) or fails, the target encoder appends the code units of one code point.",
               "std::basic_string, std::basic_istringstream, std::basic_ostream and std::vector members: contracts in engine/stdlib.py; the sink takes every character.",
               "json::dump to a string, to a stream and with options: from the caller's arguments to the contract of do_dump (which calls put_string for every text: C08)."]
BUDGET = 600
