"""C02: string literals."""
import z3
from lexer import *
from harness import Target, harvest

PROP = "C02"
INST = [("char", "char"), ("wchar_t", "wchar_t"), ("wchar_t", "char")]


class StrC(Lexing):
    """scan() at a quotation mark, followed by get_string into an arbitrary string"""

    def setups(self, ex):
        st = State()
        o = self.parser(ex, st)
        L, p = self.L, self.p0
        st.assume(z3.And(p < L.N, L.CUR(p) == 34))
        yield "", st, [o]

    def run_body(self, ex, f, st, args):
        T = ex.mod.enum("token_type")
        outs = []
        for s, o in ex.exec_func(st, f, args):
            if o[0] != "ret":
                outs.append((s, o))
                continue
            for s1, isstr in split(ex, s, o[1] == T["value_string"]):
                if not isstr:
                    outs.append((s1, ("ret", "other")))
                    continue
                out = ex.alloc(s1, "out", 32, "region")
                self.key = ("str", out.obj, 0)
                self.t0 = s1.g[self.key] = ex.fresh("text", TXT)
                for s2, r in ex.exec_func(s1, ex.mod.funcs[virt(ex.mod, self.src, self.val, "get_string")], [args[0], out]):
                    outs.append((s2, r if r[0] != "ret" else ("ret", "string")))
        return outs

    def cases(self, ex, st, ctx):
        L = self.L
        q = L.NX(self.p0)
        end = L.STRE(q)
        txt = lambda s, r: r == "string" and s.g[self.key] == L.STRT(self.t0, q)
        return [Case(end < 0, ("throw", DESER), name="malformed literal"),
                Case(end >= 0, ("ret", ANY), post=[("text read", txt)] + self.at(end), name="well-formed literal")]


def run_str(src, val):
    def run(mod):
        ex, L = lex_executor(mod, src, val, fam=("STRE",), texts=True)
        fn = virt(mod, src, val, "scan")
        ex.ghost_keep = ("lexpos", "lexk")
        c = StrC("json_parser<%s,%s>::scan string" % (val, src), L, src, val)
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(virt(mod, src, val, x)) for x in ("scan", "get_string")], hint=c.hint)
    return run


def targets(tier):
    out = []
    for src, val in INST:
        out.append(Target("string<%s,%s>" % (val, src), "json.cpp", run_str(src, val), limit=800))
    return out


REPLAY = ("json.cpp", ["C02"])
REPLAY_BOUND = "native cross-check: every escape letter, hex digit and surrogate boundary in every position of short literals, plus random literals"
ASSUMPTIONS = ["The decoder and encoder called through std::function are used through the contracts proved for the built-in encodings (C01): the decoder yields an arbitrary sequence of code points, then the end or a failure; the encoder writes ASCII as itself, any other code point as an uninterpreted text or fails.",
               "std::basic_string, std::basic_istream/ostream members and exceptions: contracts in engine/stdlib.py.",
               "A lone trail surrogate escape is handed to the encoder as it stands."]
BUDGET = 850
