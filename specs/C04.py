"""C04: tokens, white space and comments."""
import z3
from lexer import *
from harness import Target, harvest

PROP = "C04"
INST = [("char", "char"), ("wchar_t", "wchar_t"), ("wchar_t", "char")]


class ScanC(Lexing):
    """scan(): skips white space and comments, then recognises one token.  Strings and numbers: only where the token
    starts (C02 and C03 cover their contents)."""

    def setups(self, ex):
        st = State()
        o = self.parser(ex, st)
        yield "", st, [o]

    def cases(self, ex, st, ctx):
        L = self.L
        T = ex.mod.enum("token_type")
        p = L.SKIP(self.p0)
        c = L.CUR(p)
        N = L.N
        NX = L.NX
        out = [Case(p < 0, ("throw", DESER), name="comment error or undecodable input"),
               Case(z3.And(p >= 0, z3.Or(p >= N, c == 0)), ("ret", T["end_of_input"]), post=self.at(p), name="end of input")]
        inside = z3.And(p >= 0, p < N)
        known = [c == 0, c == 34, c == 43, c == 45, L.isd(c)]
        for ch, t in (("[", "begin_array"), ("]", "end_array"), ("{", "begin_object"), ("}", "end_object"), (":", "name_separator"), (",", "value_separator")):
            g = z3.And(inside, c == ord(ch))
            known.append(c == ord(ch))
            out.append(Case(z3.And(g, NX(p) >= 0), ("ret", T[t]), post=self.at(NX(p)), name="token " + ch))
            out.append(Case(z3.And(g, NX(p) < 0), ("throw", DESER), name="undecodable input after " + ch))
        for w, t in (("true", "literal_true"), ("false", "literal_false"), ("null", "literal_null")):
            q = p
            ok = [inside]
            for ch in w:
                ok += [q >= 0, L.CUR(q) == ord(ch)]
                q = NX(q)
            ok.append(q >= 0)
            known.append(c == ord(w[0]))
            out.append(Case(z3.And(ok), ("ret", T[t]), post=self.at(q), name="literal " + w))
            out.append(Case(z3.And(inside, c == ord(w[0]), z3.Not(z3.And(ok))), ("throw", DESER), name="misspelt " + w))
        out.append(Case(z3.And(inside, c == 34), ("ret", T["value_string"]), name="string starts"))
        num = z3.And(inside, z3.Or(c == 43, c == 45, L.isd(c)))
        out.append(Case(num, None, name="number starts"))
        out.append(Case(z3.And(inside, z3.Not(z3.Or(known))), ("throw", DESER), name="unexpected character"))
        return out

    def check_out(self, ex, st0, s, o, ctx, cases, label, hit):
        # a number is a number token or an error (C03 says which)
        n = [c for c in cases if c.out is None][0]
        rest = [c for c in cases if c.out is not None]
        T = ex.mod.enum("token_type")
        if o[0] == "throw":
            n.out = ("throw", DESER)
        else:
            n.out = ("ret", ANY)
            n.post = [("number token", lambda s, r: z3.Or(toB(val(r, T["value_integer"])), toB(val(r, T["value_float"]))))]
        Contract.check_out(self, ex, st0, s, o, ctx, cases, label, hit)
        n.out, n.post = None, []


def val(r, k):
    return r == k if not z3.is_expr(r) else r == z3.BitVecVal(k, r.size())


def run_scan(src, val):
    def run(mod):
        ex, L = lex_executor(mod, src, val)
        fn = virt(mod, src, val, "scan")
        c = ScanC("json_parser<%s,%s>::scan" % (val, src), L, src, val)
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)], hint=c.hint)
    return run


def run_skip(src, val):
    def run(mod):
        ex, L = lex_executor(mod, src, val)
        both = ex.nexts + ex.skips
        for n, c in both:
            c.verify(ex, n)
        r = harvest(ex, [mod.dem(n) for n, _ in both], hint=both[0][1].hint if both else None)
        if not both:
            r.obls.append(dict(name="no recursive function to verify", ok=True, status="proved", fn="", line=0, t=0, backend="none"))
        return r
    return run


def targets(tier):
    out = []
    for src, val in INST:
        out.append(Target("scan<%s,%s>" % (val, src), "json.cpp", run_scan(src, val)))
        out.append(Target("skip<%s,%s>" % (val, src), "json.cpp", run_skip(src, val)))
    out.append(Target("fail", "json.cpp", run_fails(INST)))
    return out


REPLAY = ("json.cpp", ["C04"])
REPLAY_BOUND = "native cross-check: all short strings over the token and comment alphabet"
ASSUMPTIONS = ["The decoder is used through the contract proved for the built-in encodings (C01).",
               "A NUL character outside a string literal counts as end of input, as the code documents by its token rules."]
