"""C12: comparison"""
from valops import *

PROP = "C12"
REPLAY = ("value.cpp", ["C12"])
REPLAY_FLAGS = ("-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS")
REPLAY_BOUND = "about 75 sample values of every kind, json and wjson: every pair, pairs nested in arrays and objects, 8000 random nested pairs, scalars on either side"
TRUSTED = TRUSTED_VALUES
ASSUMPTIONS = ASSUME_VALUES
NOT_PROVED = []
CTS = ("char", "wchar_t")


def targets(tier):
    return [Target("comparison<%s>" % ct, "value.cpp", runner(ct, ops_c12, keep=shows)) for ct in CTS] + [Target("laws", "value.cpp", runner("char", lemmas_c12))]
