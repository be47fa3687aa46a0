"""C03: numbers."""
import z3
from lexer import *
from harness import Target, harvest

PROP = "C03"
INST = [("char", "char"), ("wchar_t", "wchar_t"), ("wchar_t", "char")]


class NumC(Lexing):
    """scan() at a number, followed by the getter of the token it reports"""

    which = ("signed", "zero", "digit")

    def setups(self, ex):
        st = State()
        o = self.parser(ex, st)
        L, p = self.L, self.p0
        c = L.CUR(p)
        st.assume(z3.And(p < L.N, z3.Or(L.isd(c), c == 43, c == 45)))
        for sg, cond in (("signed", z3.Not(L.isd(c))), ("zero", c == 48), ("digit", z3.And(L.isd(c), c != 48))):
            if sg in self.which:
                s = st.copy()
                s.assume(cond)
                yield sg, s, [o]

    def run_body(self, ex, f, st, args):
        T = ex.mod.enum("token_type")
        self.TI, self.TF = T["value_integer"], T["value_float"]
        outs = []
        for s, o in ex.exec_func(st, f, args):
            if o[0] != "ret":
                outs.append((s, o))
                continue
            tok = o[1]
            for s1, isint in split(ex, s, tok == self.TI if z3.is_expr(tok) else tok == self.TI):
                if isint:
                    outs += self.getter(ex, s1, args[0], "get_integer", IntTy(64))
                    continue
                for s2, isf in split(ex, s1, tok == self.TF if z3.is_expr(tok) else tok == self.TF):
                    if isf:
                        outs += self.getter(ex, s2, args[0], "get_float", None)
                    else:
                        outs.append((s2, ("ret", ("other", None))))
        return outs

    def getter(self, ex, s, o, name, ty):
        out = ex.alloc(s, "out", 8, "cell")
        outs = []
        for s2, r in ex.exec_func(s, ex.mod.funcs[virt(ex.mod, self.src, self.val, name)], [o, out]):
            if r[0] != "ret":
                outs.append((s2, r))
                continue
            c = ex.get_cells(s2, out.obj).get(0, (0, UNDEF))[1]
            outs.append((s2, ("ret", (name, c))))
        return outs

    def cases(self, ex, st, ctx):
        L = self.L
        n = L.number(self.p0)
        mag = z3.Extract(63, 0, z3.If(n["neg"], -n["mag"], n["mag"]))

        def iv(s, r):
            return r[0] == "get_integer" and r[1] is not UNDEF and bv(r[1], 64) == mag

        def fv(s, r):
            if r[0] != "get_float" or r[1] is UNDEF or not z3.is_expr(r[1]) and not isinstance(r[1], (int, float)):
                return False
            return z3.Implies(n["spec"], r[1] == n["real"])
        return [Case(n["err"], ("throw", DESER), name="malformed or out of range"),
                Case(z3.And(z3.Not(n["err"]), z3.Not(n["isf"])), ("ret", ANY), post=[("is an integer of the value written", iv)] + self.at(n["end"]), name="integer"),
                Case(z3.And(z3.Not(n["err"]), n["isf"]), ("ret", ANY), post=[("is a float of the value written", fv)] + self.at(n["end"]), name="float")]


def run_num(src, val, which):
    def run(mod):
        ex, L = lex_executor(mod, src, val, fam=("DIGEND",), numbers=True)
        fn = virt(mod, src, val, "scan")
        c = NumC("json_parser<%s,%s>::scan number" % (val, src), L, src, val)
        c.which = which
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(virt(mod, src, val, x)) for x in ("scan", "get_integer", "get_float")], hint=c.hint)
    return run


def targets(tier):
    out = []
    for src, val in INST:
        for w in ("signed", "zero", "digit"):
            out.append(Target("number<%s,%s> %s" % (val, src, w), "json.cpp", run_num(src, val, (w,))))
    return out


REPLAY = ("json.cpp", ["C03"])
REPLAY_BOUND = "native cross-check: numbers around every representation boundary and random numbers against an independent reader"
ASSUMPTIONS = ["Floating-point arithmetic is treated as exact real arithmetic: the proof shows the formula evaluated is the decimal value, not the rounding error.",
               "Exponents of 100000000 and more have no specified value (they are outside the range of the float type).",
               "The decoder is used through the contract proved for the built-in encodings (C01)."]
