"""C09: dumped numbers."""
from scalars import *
from dumper import wholes
from harness import Target

PROP = "C09"


def targets(tier):
    return [Target("%s<%s,%s>" % (w, v, t), "dump.cpp", run_number(w, t, v), limit=600) for w in ("put_integer", "put_float") for t, v in INST] + \
        [Target("put_string<%s,%s> (leaves the stream fit for numbers)" % (v, t), "dump.cpp", run_string(t, v), limit=600) for t, v in INST] + wholes(("precision", "wrap", "str"), ("format",), pretty=(False,))


REPLAY = ("dump.cpp", ["C09"])
REPLAY_BOUND = "native cross-check against an independent writer: boundary and 4000 random integers, boundary floats in nine precisions and three notations, 8000 random floats (60000 in thorough), floats that are not finite; three instantiations, string output and a stream with grouping locale, hex, showpos and showpoint"
ASSUMPTIONS = ["operator<< of an integer writes its decimal digits, of a double the text FMT(value, format flags, precision), when the stream's locale is the classic one (libstdc++ num_put): the digits themselves are the library's.",
               "-2^63 is excluded, as the statement says of magnitudes below 2^63.",
               "std::basic_ostream, std::ios_base and std::basic_ostringstream members: contracts in engine/stdlib.py; the sink takes every character.",
               "json::dump to a string, through wrap() and with options: from the caller's arguments to the contract of do_dump (which calls put_integer and put_float for every number: C08)."]
BUDGET = 600
