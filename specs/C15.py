"""C15: iteration.

Every operation of the iterator classes is proved against positions (ops_c15), and whole forward and backward
iterations over containers of any length by loop invariants over the visited sequence (ops_c15_whole)."""
from iters import *
from harness import Target

PROP = "C15"
CTS = ("char", "wchar_t")


def targets(tier):
    return [Target("iterator operations<%s>" % ct, "iter.cpp", run_iters(ct, ops_c15), limit=600) for ct in CTS] + [Target("iterations<%s>" % ct, "iter.cpp", run_iters(ct, ops_c15_whole), limit=600) for ct in CTS]


REPLAY = ("iter.cpp", [])
REPLAY_FLAGS = ("-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS")
REPLAY_BOUND = ("arrays and objects of up to 26 elements, scalars and null, json and wjson; every pair of positions; "
                "erasure of every position and range of values of up to 8 elements")
TRUSTED = TRUSTED_VALUES
ASSUMPTIONS = ASSUME_VALUES + ["iterators are within the value they were made from (positions 0 to its length), and an iterator given to erase belongs to the value it is erased from"]
BUDGET = 600
