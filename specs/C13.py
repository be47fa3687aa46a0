"""C13: typed access"""
from valops import *

PROP = "C13"
REPLAY = ("value.cpp", ["C13"])
REPLAY_FLAGS = ("-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS")
REPLAY_BOUND = "about 75 sample values of every kind, json and wjson: every requested type"
TRUSTED = TRUSTED_VALUES
ASSUMPTIONS = ASSUME_VALUES + ["an unsigned value above the largest integer is not among the arguments", "a double too large for float is converted as the target hardware does"]
NOT_PROVED = []
CTS = ("char", "wchar_t")


def targets(tier):
    return [Target("typed access<%s>" % ct, "value.cpp", runner(ct, ops_c13, keep=shows)) for ct in CTS]
