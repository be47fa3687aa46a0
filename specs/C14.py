"""C14: conversions between values and containers and pointers.

Every to_value/from_value of the library for containers and smart pointers, over an opaque element type E whose own
conversions are contracts (ops_c14); loops of any length by invariants over arbitrary positions and keys."""
from convs import *
from harness import Target

PROP = "C14"
CTS = ("char", "wchar_t")


def targets(tier):
    return [Target("conversions<%s>" % ct, "conv.cpp", run_convs(ct, ops_c14), limit=600) for ct in CTS]


REPLAY = ("conv.cpp", [])
REPLAY_FLAGS = ("-O1", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS")
REPLAY_BOUND = ("containers of up to 40 elements of int, double, bool, string and vector<int>, json and wjson, into targets "
                "holding up to 50 other elements; fixed-size targets of 1, 3 and 5; 11 values of other kinds")
TRUSTED = TRUSTED_VALUES + ["std::vector, deque, list, forward_list, set, unordered_set, map, unordered_map, shared_ptr and make_shared of the element type (contracts; unique_ptr and array are verified as compiled)"]
ASSUMPTIONS = ASSUME_VALUES + ["the element type is copyable and its own conversion to a value does not throw; its conversion from a value may throw or leave any element",
                               "fixed-size targets (std::array, C arrays) are checked for 3 elements",
                               "containers hold fewer than 2^58 elements"]
BUDGET = 600
