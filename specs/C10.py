"""C10: values own their contents"""
from valops import *

PROP = "C10"
REPLAY = ("value.cpp", ["C10"])
REPLAY_FLAGS = ("-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS")
REPLAY_BOUND = "about 75 sample values of every kind, json and wjson: every pair under copy, move, assignment and swap, assignment between a container and its own element, 600 random histories of 25 steps; live allocations counted, AddressSanitizer"
TRUSTED = TRUSTED_VALUES
ASSUMPTIONS = ASSUME_VALUES
NOT_PROVED = ["iterator-range erase and the list makers"]
CTS = ("char", "wchar_t")


def targets(tier):
    return [Target("%s<%s>" % (n, ct), "value.cpp", runner(ct, w, keep=k)) for ct in CTS for n, w, k in (("life cycle", ops_c10, None), ("own element", ops_c10_nested, None), ("access", ops_c11, owns), ("typed access", ops_c13, owns))]
