"""C18: bound user types.

The functions CONFIGOR_BIND expands to, and the value class's paths to types with binders of their own, executed for arbitrary
field contents of an opaque type and arbitrary values (ops_c18, ops_c18_own); there are no loops."""
from binds import *
from harness import Target

PROP = "C18"


def targets(tier):
    return [Target("bound types<char>", "bind.cpp", run_convs("char", ops_c18("Mix", "Req", "Opt")), limit=600),
            Target("bound types<wchar_t>", "bind.cpp", run_convs("wchar_t", ops_c18("WMix", "WReq", "WOpt")), limit=600),
            Target("50 fields", "bind.cpp", run_convs("char", ops_c18("Max")), limit=800),
            Target("own binders", "bind.cpp", run_convs("char", ops_c18_own), limit=600)]


REPLAY = ("bind.cpp", [])
REPLAY_FLAGS = ("-O0", "-fsanitize=address", "-D_GLIBCXX_ASSERTIONS")
REPLAY_BOUND = ("types of 1 to 50 required and 1 to 50 optional fields, mixed and nested types with fields of 9 kinds, json and wjson; "
                "every field missing, null, of another kind or default in turn; sampled subsets of present fields")
TRUSTED = TRUSTED_VALUES
ASSUMPTIONS = ASSUME_VALUES + ["fields are of a copyable, default constructible, comparable type whose conversion to a value does not throw; its conversion from a value may throw (leaving the field) or give any element",
                               "the macro is verified on its expansions for the types of driver/bind.cpp: required, renamed and optional fields mixed, a single field of either form, and the longest list (50 fields, for objects whose members convert), of which the expansions of shorter lists are parts",
                               "distinct member names"]
BUDGET = 700
