"""C01: text encodings."""
import z3
from llir import Unsupported
from sym import simp, toB, bv, Ptr
from vc import Contract, Case, ANY
from models import *
from harness import Target, harvest

PROP = "C01"
REPLAY = ("C01.cpp",)
REPLAY_BOUND = ("all 1112064 scalar values and 70000 values above U+10FFFF in every encoding; all byte sequences of length <= 2, "
                "all 3/4-byte sequences over boundary bytes; all UTF-16 unit pairs over boundary units")
NOT_PROVED = ["behaviour on ill-formed UTF-8 (stray or missing continuation bytes, overlong forms, encoded surrogates) is "
              "unspecified by the property; only memory safety and absence of exceptions are proved there"]


def B(v, n=32):
    return z3.BitVecVal(v, n)


def rng(x, a, b):
    return z3.And(z3.UGE(x, a), z3.ULE(x, b))


def z32(x):
    return x if x.size() == 32 else z3.ZeroExt(32 - x.size(), x)


class U8:
    @staticmethod
    def enc(c):
        return [(z3.ULT(c, 0x80), [c]),
                (rng(c, 0x80, 0x7FF), [B(0xC0) + z3.LShR(c, 6), B(0x80) + (c & 0x3F)]),
                (rng(c, 0x800, 0xFFFF), [B(0xE0) + z3.LShR(c, 12), B(0x80) + (z3.LShR(c, 6) & 0x3F), B(0x80) + (c & 0x3F)]),
                (rng(c, 0x10000, 0x10FFFF), [B(0xF0) + z3.LShR(c, 18), B(0x80) + (z3.LShR(c, 12) & 0x3F),
                                             B(0x80) + (z3.LShR(c, 6) & 0x3F), B(0x80) + (c & 0x3F)])]

    @staticmethod
    def dec(u, left):
        """u: 6 units (BV32) from the position, left: units left (BV64) -> (good [(guard, cp, k)], bad guard)"""
        cb = lambda x: rng(x, 0x80, 0xBF)
        b = u
        has = lambda k: z3.UGE(left, k)
        g = [(z3.And(has(1), z3.ULT(b[0], 0x80)), b[0], 1),
             (z3.And(has(2), rng(b[0], 0xC2, 0xDF), cb(b[1])), ((b[0] & 0x1F) << 6) | (b[1] & 0x3F), 2),
             (z3.And(has(3), cb(b[1]), cb(b[2]), z3.Or(z3.And(b[0] == 0xE0, z3.UGE(b[1], 0xA0)), rng(b[0], 0xE1, 0xEC),
                                                   z3.And(b[0] == 0xED, z3.ULE(b[1], 0x9F)), rng(b[0], 0xEE, 0xEF))),
              ((b[0] & 0xF) << 12) | ((b[1] & 0x3F) << 6) | (b[2] & 0x3F), 3),
             (z3.And(has(4), cb(b[1]), cb(b[2]), cb(b[3]), z3.Or(z3.And(b[0] == 0xF0, z3.UGE(b[1], 0x90)), rng(b[0], 0xF1, 0xF3),
                                                             z3.And(b[0] == 0xF4, z3.ULE(b[1], 0x8F)))),
              ((b[0] & 7) << 18) | ((b[1] & 0x3F) << 12) | ((b[2] & 0x3F) << 6) | (b[3] & 0x3F), 4)]
        # cut off inside a character: the units present are a proper prefix of a well-formed sequence
        trunc = z3.And(has(1), z3.Or(
            z3.And(left == 1, rng(b[0], 0xC2, 0xF4)),
            z3.And(left == 2, rng(b[0], 0xE0, 0xF4), cb(b[1])),
            z3.And(left == 3, rng(b[0], 0xF0, 0xF4), cb(b[1]), cb(b[2]))))
        v4 = ((b[0] & 7) << 18) | ((b[1] & 0x3F) << 12) | ((b[2] & 0x3F) << 6) | (b[3] & 0x3F)
        v5 = ((b[0] & 3) << 24) | ((b[1] & 0x3F) << 18) | ((b[2] & 0x3F) << 12) | ((b[3] & 0x3F) << 6) | (b[4] & 0x3F)
        v6 = ((b[0] & 1) << 30) | ((b[1] & 0x3F) << 24) | ((b[2] & 0x3F) << 18) | ((b[3] & 0x3F) << 12) | ((b[4] & 0x3F) << 6) | (b[5] & 0x3F)
        big = z3.Or(z3.And(has(4), rng(b[0], 0xF0, 0xF7), cb(b[1]), cb(b[2]), cb(b[3]), z3.UGT(v4, 0x10FFFF)),
                    z3.And(has(5), rng(b[0], 0xF8, 0xFB), *[cb(b[i]) for i in range(1, 5)], z3.UGT(v5, 0x10FFFF)),
                    z3.And(has(6), rng(b[0], 0xFC, 0xFD), *[cb(b[i]) for i in range(1, 6)], z3.UGT(v6, 0x10FFFF)))
        return g, z3.Or(trunc, big)
    unit_max = 0xFF


class U16:
    @staticmethod
    def enc(c):
        d = c - 0x10000
        return [(z3.ULE(c, 0xFFFF), [c]), (rng(c, 0x10000, 0x10FFFF), [B(0xD800) + z3.LShR(d, 10), B(0xDC00) + (d & 0x3FF)])]

    @staticmethod
    def dec(u, left):
        has = lambda k: z3.UGE(left, k)
        lead, trail = (lambda x: rng(x, 0xD800, 0xDBFF)), (lambda x: rng(x, 0xDC00, 0xDFFF))
        return [(z3.And(has(1), z3.Not(rng(u[0], 0xD800, 0xDFFF))), u[0], 1),
                (z3.And(has(2), lead(u[0]), trail(u[1])), B(0x10000) + ((u[0] - 0xD800) << 10) + (u[1] - 0xDC00), 2)], \
            z3.And(has(1), lead(u[0]), z3.Or(left == 1, z3.Not(trail(u[1]))))
    unit_max = 0xFFFF


class U32:
    @staticmethod
    def enc(c):
        return [(z3.ULE(c, 0x10FFFF), [c])]

    @staticmethod
    def dec(u, left):
        has = z3.UGE(left, 1)
        return [(z3.And(has, z3.ULE(u[0], 0x10FFFF), z3.Not(rng(u[0], 0xD800, 0xDFFF))), u[0], 1)], \
            z3.And(has, z3.UGT(u[0], 0x10FFFF))
    unit_max = 0xFFFFFFFE          # the wide end-of-file value is not a character


class Ign:
    unit_max = None


class Decode(Contract):
    def __init__(self, name, kind, ct):
        self.name, self.kind, self.ct = name, kind, ct

    def setups(self, ex):
        st = State()
        sb, U, n, pos = mk_source(ex, st, self.ct)
        p, q = mk_istream(ex, st, self.ct, sb)
        cp = ex.alloc(st, "codepoint", 4, "alloca", lazy=True)
        self.x = (U, n, pos, sb, q, cp)
        if self.kind is not Ign:
            for i in range(6):
                st.assume(z3.ULE(z32(U(pos + i)), self.kind.unit_max))
        elif CHARW[self.ct] == 32:
            st.assume(U(pos) != 0xFFFFFFFF)
        st2 = st.copy()
        for k in ("eof", "fail"):
            st2.g[iosk(q, k)] = ex.fresh(k, "bool")
        st2.g[iosk(q, "eof")] = True
        yield "", st, [p, cp]
        yield "after the end", st2, [p, cp]

    def bind(self, ex, st, args):
        return True

    def cases(self, ex, st, ctx):
        U, n, pos, sb, q, cp = self.x
        src, cell = ("g", ("src", sb.obj)), ("c", cp.obj, 0, 4)
        E, F, Bd = [("g", iosk(q, x)) for x in ("eof", "fail", "bad")]
        if st.g[E[1]] is True:
            return [Case(True, ("ret", False), {src: pos, E: True, F: ANY, Bd: False, cell: ANY}, name="end of input was reached before")]
        left = simp(n - pos)
        u = [z32(U(pos + i)) for i in range(6)]
        out = [Case(left == 0, ("ret", False), {src: pos, E: True, F: ANY, Bd: False, cell: ANY}, name="end of input")]
        if self.kind is Ign:
            v = U(pos)
            v = v if v.size() == 32 else z3.SignExt(24, v)
            out.append(Case(left != 0, ("ret", True), {src: pos + 1, E: False, F: False, Bd: False, cell: v}, name="unit passed through"))
            return out
        g, bad = self.kind.dec(u, left)
        for gd, c, k in g:
            out.append(Case(gd, ("ret", True), {src: pos + k, E: False, F: False, Bd: False, cell: c}, name="well-formed, %d units" % k))
        out.append(Case(bad, ("ret", True), {src: ANY, E: ANY, F: True, Bd: ANY, cell: ANY}, name="cut off or above U+10FFFF: stream failed"))
        rest = z3.And(left != 0, z3.Not(bad), *[z3.Not(gd) for gd, _, _ in g])
        out.append(Case(rest, ("ret", ANY), {src: ANY, E: ANY, F: ANY, Bd: ANY, cell: ANY}, name="ill-formed (unspecified, no exception)"))
        return out

    def hint(self, ex, m):
        U, n, pos = self.x[:3]
        p = m.eval(pos, model_completion=True).as_long()
        l = m.eval(n, model_completion=True).as_long() - p
        if l < 0 or l > 64:
            l = 6
        return "dec:%s:%s:%s" % (self.kind.__name__, self.ct, ",".join("%x" % m.eval(U(z3.BitVecVal(p + i, 64)), model_completion=True).as_long()
                                                                      for i in range(l)))


class Encode(Contract):
    def __init__(self, name, kind, ct):
        self.name, self.kind, self.ct = name, kind, ct

    def setups(self, ex):
        st = State()
        sb, T = mk_sink(ex, st, self.ct)
        p, q = mk_ostream(ex, st, self.ct, sb)
        c = z3.BitVec("codepoint", 32)
        self.x = (T, sb, q, c)
        if self.kind is Ign and CHARW[self.ct] == 32:
            st.assume(c != 0xFFFFFFFF)      # the wide end-of-file value is not a character
        yield "", st, [p, c]

    def bind(self, ex, st, args):
        return True

    def cases(self, ex, st, ctx):
        T, sb, q, c = self.x
        snk = ("g", ("snk", sb.obj))
        E, F, Bd = [("g", iosk(q, x)) for x in ("eof", "fail", "bad")]
        if self.kind is Ign:
            v = c if CHARW[self.ct] == 32 else z3.ZeroExt(24, z3.Extract(7, 0, c))
            return [Case(True, ("ret", None), {snk: PUT(T, v), E: False, F: False, Bd: False}, name="unit passed through")]
        out = []
        sur = rng(c, 0xD800, 0xDFFF)
        for g, us in self.kind.enc(c):
            out.append(Case(z3.And(g, z3.Not(sur)), ("ret", None), {snk: puts(T, us), E: False, F: False, Bd: False},
                            name="scalar value, %d units" % len(us)))
        out.append(Case(sur, ("ret", None), {snk: ANY, E: ANY, F: ANY, Bd: ANY}, name="surrogate (unspecified)"))
        out.append(Case(z3.UGT(c, 0x10FFFF), ("ret", None), {snk: T, E: ANY, F: True, Bd: ANY}, name="above U+10FFFF: nothing written"))
        return out

    def hint(self, ex, m):
        return "enc:%s:%s:%x" % (self.kind.__name__, self.ct, m.eval(self.x[3], model_completion=True).as_long())


def run_codec(cls, sym, kind, ct, op):
    def run(mod):
        fn = find(mod, r"^configor::encoding::%s<%s>::%s\(std::[^,]*, unsigned int&?\)$" % (sym, ct, op))
        ex = new_executor(mod, fn)
        c = cls("%s<%s>::%s" % (sym, ct, op), kind, ct)
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)], hint=c.hint)
    return run


def lemma_inverse(kind, nm):
    """decode(encode(c)) == c: a lemma over the two contracts"""
    def run(mod):
        ex = new_executor(mod, nm)
        st = State()
        c = z3.BitVec("c", 32)
        left = z3.BitVec("left", 64)
        for g, us in kind.enc(c):
            s = st.copy()
            s.assume(g)
            s.assume(z3.Not(rng(c, 0xD800, 0xDFFF)))
            s.assume(z3.UGE(left, len(us)))
            u = [simp(x) if z3.is_expr(simp(x)) else x for x in us] + [z3.BitVec("rest%d" % i, 32) for i in range(6)]
            gd, bad = kind.dec(u[:6], left)
            ex.oblige(s.copy(), z3.Or([z3.And(a, v == c, z3.BoolVal(k == len(us))) for a, v, k in gd]), "decoding the %d units of c gives c and uses %d" % (len(us), len(us)))
            for i in range(1, len(us)):
                gd, bad = kind.dec(u[:6], z3.BitVecVal(i, 64))
                ex.oblige(s.copy(), bad, "any proper prefix of the units of c is cut off")
            ex.oblige(s.copy(), z3.And([z3.ULE(x, kind.unit_max) for x in us]), "units are in range")
        return harvest(ex, [])
    return run


def targets(tier):
    out = []
    for sym, kind, ct in (("utf8", U8, "char"), ("utf8", U8, "wchar_t"), ("utf16", U16, "wchar_t"), ("utf32", U32, "wchar_t"),
                          ("ignore", Ign, "char"), ("ignore", Ign, "wchar_t"), ("auto_utf", U8, "char"), ("auto_utf", U32, "wchar_t")):
        for op, cls in (("decode", Decode), ("encode", Encode)):
            out.append(Target("%s<%s>::%s" % (sym, ct, op), "codec.cpp", run_codec(cls, sym, kind, ct, op)))
    for k, n in ((U8, "utf8"), (U16, "utf16"), (U32, "utf32")):
        out.append(Target("lemma: %s decode after encode" % n, "codec.cpp", lemma_inverse(k, n)))
    return out
