"""C11: element access"""
from valops import *

PROP = "C11"
REPLAY = ("value.cpp", ["C11"])
REPLAY_FLAGS = ("-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS")
REPLAY_BOUND = "about 75 sample values of every kind, json and wjson: every index class and key, every pair under push_back/emplace_back"
TRUSTED = TRUSTED_VALUES
ASSUMPTIONS = ASSUME_VALUES + ["erase(index) is called with an index below the size (its precondition)"]
NOT_PROVED = ["erase and find through iterators (see C15)"]
CTS = ("char", "wchar_t")


def targets(tier):
    return [Target("access<%s>" % ct, "value.cpp", runner(ct, ops_c11, keep=shows)) for ct in CTS]
