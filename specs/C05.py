"""C05: documents."""
import z3
from tokens import *
from harness import Target, harvest

PROP = "C05"
INST = [("char", "char"), ("wchar_t", "wchar_t"), ("wchar_t", "char")]


def parse_executor(mod, src, val):
    ex, T = token_executor(mod, src, val)
    ex.inv_pool = tok_pool(T)
    ex.measures = tok_measures(T)
    c = ParseC(T, src, val)
    rx = r"configor::detail::(?:json|basic)_parser<configor::basic_value<.*>, %s>::do_parse\(" % src
    ex.add_contract("^" + rx, c.handler, c.name + " contract", trusted=False, front=True)
    return ex, T, c


def run_do_parse(src, val):
    def run(mod):
        ex, T, c = parse_executor(mod, src, val)
        v = {"char": "value_tplargs", "wchar_t": "wvalue_tplargs"}[val]
        fn = find(mod, r"^configor::detail::basic_parser<configor::basic_value<configor::%s>, %s>::do_parse\(" % (v, src))
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


def targets(tier, full=True):
    out = []
    import C06
    for src, val in INST:
        out.append(Target("do_parse<%s,%s>" % (val, src), "json.cpp", run_do_parse(src, val)))
    if full:
        from roundtrip import token_targets
        out += C06.parse_targets() + token_targets()
    return out


REPLAY = ("json.cpp", ["C05"])
REPLAY_BOUND = "native cross-check: documents of up to a few tokens over all token kinds, random trees, nesting to 3000 levels"
ASSUMPTIONS = ["scan() and the getters are used through token-level contracts: which token stands where, its text or value and its end (C02-C04 prove these for the characters; that a token ends behind its start and within the text is the token lemma, proved here).",
               "std::vector and std::map of values are used through contracts (sequence and key-ordered map).",
               "The value class is used through contracts of its destructor and copy constructor (C10); its other members are executed."]
