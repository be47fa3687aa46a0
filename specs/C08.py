"""C08: structure of dumped documents."""
from dumper import *
from harness import Target, harvest

PROP = "C08"


def run_doc(tgt, val, pretty):
    def run(mod):
        ex, D, S, c = doc_executor(mod, tgt, val, pretty)
        fn = find(mod, r"^configor::detail::(json|basic)_serializer<configor::basic_value<configor::%s>, %s>::do_dump\(" % (VA[val], tgt))
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


def targets(tier):
    return [Target("lemmas", "dump.cpp", run_products, helper=True)] + [Target("do_dump<%s,%s> %s" % (v, t, "indented" if p else "compact"), "dump.cpp", run_doc(t, v, p), limit=600) for t, v in INST for p in (False, True)] + \
        wholes(("plain", "indent", "wrap", "str"))


REPLAY = ("dump.cpp", ["C08"])
REPLAY_BOUND = "native cross-check against an independent writer: all trees of up to two nested levels over eight leaves, depths to 600, widths to 255, up to 70000 elements, random trees; three instantiations, string, stream and wrapper output"
ASSUMPTIONS = ["The indentation character is not NUL (NUL prints no indentation), the stream's width (taken as the indent step) is 0..255 and values are nested at most 65535 deep.",
               "The sink takes every character; std::basic_string, std::basic_ostream members, std::function options (executed as compiled), std::vector and std::map members: contracts in engine/stdlib.py and engine/values.py.",
               "put_string, put_integer and put_float append the text of the scalar or throw (C07, C09).",
               "An empty container has its closing bracket on a line of its own in indented output, like any other."]
BUDGET = 600
