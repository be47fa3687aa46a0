"""Specification of the JSON lexer over an abstract code point sequence, and the abstract decoder / encoder contracts.

The source is a sequence CP(0..N-1) of code points; BAD says that the input denotes no character at position N (the
decoder marks the stream failed there).  Positions are indices into it; -1 stands for "rejected"."""
import re
import z3
from llir import Unsupported, PTR, IntTy
from sym import State, Ptr, NULL, Fn, Abs, UNDEF, simp, toB, bv, NeedInv
from stdlib import (TXT, EMPTY, PUT, CATT, LEN, ios_init, vtable_for, iget, iset, split, good, Or_, Not_, vcall, setstate, R,
                    ios_of, CHARW)
from vc import Contract, Case, ANY

I = z3.IntSort()
B32 = z3.BitVecSort(32)
B68 = z3.BitVecSort(68)
RS = z3.RealSort()
DESER = "_ZTIN8configor30configor_deserialization_errorE"


def C32(c):
    return z3.BitVecVal(ord(c) if isinstance(c, str) else c, 32)


class Lex:
    """spec functions; ex.th gets their definitions"""

    def __init__(self, ex, tag=""):
        self.ex = ex
        th = ex.th
        F = z3.Function
        self.CP = F("CP" + tag, I, B32)
        self.N = z3.Int("N" + tag)
        self.BAD = z3.Bool("BAD" + tag)
        N, BAD, CP = self.N, self.BAD, self.CP
        self.CUR = F("CUR" + tag, I, B32)
        self.NX = F("NX" + tag, I, I)
        CUR, NX = self.CUR, self.NX
        If, And, Or = z3.If, z3.And, z3.Or
        th.define(CUR, lambda p: If(And(p >= 0, p < N), CP(p), z3.BitVecVal(0, 32)))
        th.define(NX, lambda p: If(p < 0, -1, If(p < N, If(And(p + 1 == N, BAD), -1, p + 1), N)))
        self.isd = lambda c: And(z3.UGE(c, 48), z3.ULE(c, 57))
        isd = self.isd
        # --- white space and comments
        self.SKIP, self.LINE, self.BLOCK = F("SKIP", I, I), F("LINE", I, I), F("BLOCK", I, I)
        SKIP, LINE, BLOCK = self.SKIP, self.LINE, self.BLOCK
        ws = lambda c: Or(c == 32, c == 9, c == 10, c == 13)
        th.define(SKIP, lambda p: If(p < 0, -1, If(ws(CUR(p)), SKIP(NX(p)), If(CUR(p) == 47,
                  If(NX(p) < 0, -1, If(CUR(NX(p)) == 47, LINE(NX(NX(p))), If(CUR(NX(p)) == 42, BLOCK(NX(NX(p))), -1))), p))))
        th.define(LINE, lambda p: If(p < 0, -1, If(Or(CUR(p) == 10, CUR(p) == 13), SKIP(p), If(p >= N, p, LINE(NX(p))))))
        th.define(BLOCK, lambda p: If(p < 0, -1, If(p >= N, -1, If(And(CUR(p) == 42, NX(p) >= 0, CUR(NX(p)) == 47),
                  SKIP(NX(NX(p))), BLOCK(NX(p))))))
        # --- numbers
        self.DIGEND, self.ACC, self.ACCR = F("DIGEND", I, I), F("ACC", B68, I, B68), F("ACCR", RS, I, RS)
        self.FRAC, self.EACC, self.PW = F("FRAC", RS, RS, I, RS), F("EACC", B32, I, B32), F("PW", RS, B32, RS)
        self.DR = F("DR", B32, RS)             # value of a digit
        DIGEND, ACC, ACCR, FRAC, EACC, PW = self.DIGEND, self.ACC, self.ACCR, self.FRAC, self.EACC, self.PW
        MAX = z3.BitVecVal(1 << 63, 68)
        self.MAX = MAX
        th.define(DIGEND, lambda p: If(p < 0, -1, If(isd(CUR(p)), DIGEND(NX(p)), p)))
        th.define(ACC, lambda m, p: If(z3.UGT(m, MAX), m, If(And(p >= 0, isd(CUR(p))), ACC(m * 10 + z3.ZeroExt(36, CUR(p) - 48), NX(p)), m)))
        th.define(ACCR, lambda r, p: If(And(p >= 0, isd(CUR(p))), ACCR(r * 10 + self.N2R(CUR(p) - 48), NX(p)), r))
        tenth = z3.RealVal("0.1")
        self.tenth = tenth
        th.define(FRAC, lambda r, f, p: If(And(p >= 0, isd(CUR(p))), FRAC(r + rmul(self.N2R(CUR(p) - 48), f), rmul(f, tenth), NX(p)), r))
        self.EBIG = z3.BitVecVal(100000000, 32)
        th.define(EACC, lambda e, p: If(z3.UGE(e, self.EBIG), e, If(And(p >= 0, isd(CUR(p))), EACC(e * 10 + (CUR(p) - 48), NX(p)), e)))
        th.define(PW, lambda b, e: If(e == 0, z3.RealVal(1), If(z3.Extract(0, 0, e) == 1, rmul(b, PW(rmul(b, b), z3.LShR(e, 1))), PW(rmul(b, b), z3.LShR(e, 1)))))
        # --- strings
        self.STRE, self.STRT = F("STRE", I, I), F("STRT", TXT, I, TXT)
        self.ETXT, self.EOK = F("ETXT", B32, TXT), F("EOK", B32, z3.BoolSort())
        STRE, STRT = self.STRE, self.STRT
        self.ENC = lambda T, c: If(z3.ULT(c, 0x80), PUT(T, c), CATT(T, self.ETXT(c)))
        self.ENCOK = lambda c: Or(z3.ULT(c, 0x80), self.EOK(c))
        self.HEXE, self.HEXV = F("HEXE", I, I), F("HEXV", I, B32)   # four hex digits after position p: end / value
        th.define(self.HEXE, self._hexe)
        th.define(self.HEXV, self._hexv)
        th.define(STRE, lambda p: self._str(p, None)[0])
        th.define(STRT, lambda T, p: self._str(p, T)[1])

    # naturals to reals: digits (BV32)
    def N2R(self, x):
        return n2r(self.ex, x)

    def hexd(self, c):
        If = z3.If
        return If(self.isd(c), c - 48, If(z3.And(z3.UGE(c, 65), z3.ULE(c, 70)), c - 55, c - 87))

    def ishex(self, c):
        return z3.Or(self.isd(c), z3.And(z3.UGE(c, 65), z3.ULE(c, 70)), z3.And(z3.UGE(c, 97), z3.ULE(c, 102)))

    def _q(self, p):
        q = []
        for i in range(4):
            p = self.NX(p)
            q.append(p)
        return q

    def _hexe(self, p):
        """position of the last of four hex digits following p, -1 if there are none"""
        q = self._q(p)
        return z3.If(z3.And([z3.And(x >= 0, self.ishex(self.CUR(x))) for x in q]), q[3], -1)

    def _hexv(self, p):
        q = self._q(p)
        v = z3.BitVecVal(0, 32)
        for x in q:
            v = (v << 4) + self.hexd(self.CUR(x))
        return z3.simplify(v)

    def _str(self, p, T):
        """(end position, text) of the string rest starting at p (after the opening quote / the last element)"""
        If, And, Or = z3.If, z3.And, z3.Or
        CUR, NX, N, STRE = self.CUR, self.NX, self.N, self.STRE
        T = T if T is not None else EMPTY
        S = lambda t, q: (STRE(q), self.STRT(t, q))
        bad = (z3.IntVal(-1), T)

        def ite(c, a, b):
            return (If(c, a[0], b[0]), If(c, a[1], b[1]))
        c = CUR(p)
        q = NX(p)
        e = CUR(q)
        r = bad
        for ch, v in ((34, 34), (92, 92), (47, 47), (98, 8), (102, 12), (110, 10), (114, 13), (116, 9)):
            r = ite(e == ch, S(PUT(T, z3.BitVecVal(v, 32)), NX(q)), r)
        u1, v1 = self.HEXE(q), self.HEXV(q)
        lead = And(z3.UGE(v1, 0xD800), z3.ULE(v1, 0xDBFF))
        n1 = NX(u1)
        n2 = NX(n1)
        u2, v2 = self.HEXE(n2), self.HEXV(n2)
        pair = z3.BitVecVal(0x10000, 32) + ((v1 - 0xD800) << 10) + (v2 - 0xDC00)
        okpair = And(n1 >= 0, CUR(n1) == 92, n2 >= 0, CUR(n2) == 117, u2 >= 0, z3.UGE(v2, 0xDC00), z3.ULE(v2, 0xDFFF), self.ENCOK(pair))
        un = ite(u1 < 0, bad, ite(lead, ite(okpair, S(self.ENC(T, pair), NX(u2)), bad), ite(self.ENCOK(v1), S(self.ENC(T, v1), NX(u1)), bad)))
        r = ite(e == 117, un, r)
        r = ite(q < 0, bad, r)
        plain = ite(self.ENCOK(c), S(self.ENC(T, c), NX(p)), bad)
        return ite(Or(p < 0, p >= N), bad, ite(c == 34, (NX(p), T), ite(z3.ULT(c, 32), bad, ite(c == 92, r, plain))))

    # ---- number at position t: (error, is float, end, integer magnitude, negative, real value, value specified)
    def number(self, t):
        If, And, Or, Not = z3.If, z3.And, z3.Or, z3.Not
        CUR, NX, isd = self.CUR, self.NX, self.isd
        c0 = CUR(t)
        neg = c0 == ord('-')
        sign = Or(neg, c0 == ord('+'))
        q = If(sign, NX(t), t)
        cq = CUR(q)
        zero = cq == 48
        z1 = NX(q)
        de = If(zero, z1, self.DIGEND(q))
        cde = CUR(de)
        m = If(zero, z3.BitVecVal(0, 68), self.ACC(z3.BitVecVal(0, 68), q))
        r0 = If(zero, z3.RealVal(0), self.ACCR(z3.RealVal(0), q))
        ise = lambda c: Or(c == ord('e'), c == ord('E'))
        frac = And(de >= 0, cde == 46)
        f1 = NX(de)
        fe = self.DIGEND(f1)
        r1 = If(frac, self.FRAC(r0, self.tenth, f1), r0)
        me = If(frac, fe, de)
        hasexp = And(me >= 0, ise(CUR(me)))
        x1 = NX(me)
        cx = CUR(x1)
        xs = Or(cx == ord('+'), cx == ord('-'))
        x2 = If(xs, NX(x1), x1)
        xe = self.DIGEND(x2)
        e = self.EACC(z3.BitVecVal(0, 32), x2)
        base = If(cx == ord('-'), self.tenth, z3.RealVal(10))
        err = Or(q < 0, Not(isd(cq)), de < 0,
                 And(zero, ise(cde)),
                 And(frac, Or(f1 < 0, Not(isd(CUR(f1))), fe < 0)),
                 And(hasexp, Or(x1 < 0, Not(Or(xs, And(isd(cx), cx != 48))), x2 < 0, Not(isd(CUR(x2))), xe < 0)))
        isf = Or(frac, hasexp)
        ovf = And(Not(isf), Or(z3.UGT(m, self.MAX), And(m == self.MAX, Not(neg))))
        end = If(hasexp, xe, me)
        real = If(hasexp, If(r1 == 0, z3.RealVal(0), rmul(r1, self.PW(base, e))), r1)
        spec = Not(And(hasexp, z3.UGE(e, self.EBIG)))
        return dict(err=Or(err, ovf), isf=isf, end=end, mag=m, neg=neg, real=If(neg, -real, real), spec=spec)

    # ---- the parser object in an arbitrary lexer state at position p
    def pos(self, st, o):
        g = st.g.get(("lexpos", o))
        if g is not None:
            return g
        return self.dpos(st, o)

    def dpos(self, st, o):
        """position derived from the stream state"""
        P = self.P[o]
        q = Ptr(o, P["ios"])
        e = iget(st, q, "eof")
        k = st.g[("lexk", o)]
        e = simp(e)
        if e is True:
            return self.N
        if e is False:
            return z3.simplify(k - 1) if z3.is_expr(k) else z3.IntVal(k - 1)
        return z3.If(e, self.N, k - 1)

    P = {}


N2RF = z3.Function("N2R", B32, RS)
I2RF = z3.Function("I2R", z3.BitVecSort(64), RS)


def lin(e):
    """linear form over bit vectors of one size: {term id: (term, coeff)}, constant"""
    n = e.size()
    out = {}
    const = 0

    def s(v):
        v &= (1 << n) - 1
        return v - (1 << n) if v >> (n - 1) else v

    def rec(x, c):
        nonlocal const
        k = x.decl().kind()
        if z3.is_bv_value(x):
            const += c * s(x.as_long())
        elif k == z3.Z3_OP_BADD:
            for y in x.children():
                rec(y, c)
        elif k == z3.Z3_OP_BSUB:
            ch = x.children()
            rec(ch[0], c)
            for y in ch[1:]:
                rec(y, -c)
        elif k == z3.Z3_OP_BNEG:
            rec(x.children()[0], -c)
        elif k == z3.Z3_OP_BMUL and len(x.children()) == 2 and z3.is_bv_value(x.children()[0]):
            rec(x.children()[1], c * s(x.children()[0].as_long()))
        elif k == z3.Z3_OP_BMUL and len(x.children()) == 2 and z3.is_bv_value(x.children()[1]):
            rec(x.children()[0], c * s(x.children()[1].as_long()))
        else:
            i = x.get_id()
            t, d = out.get(i, (x, 0))
            out[i] = (x, d + c)
    rec(e, 1)
    return out, const


def n2r(ex, x):
    """real value of an unsigned 32-bit number"""
    if z3.is_bv_value(x):
        return z3.RealVal(x.as_long())
    return N2RF(x)


def i2r(ex, x):
    """real value of a signed 64-bit number"""
    if isinstance(x, int):
        x = z3.BitVecVal(x, 64)
    x = z3.simplify(x)
    if z3.is_bv_value(x):
        return z3.RealVal(x.as_signed_long())
    if x.decl().kind() == z3.Z3_OP_ZERO_EXT:
        y = x.children()[0]
        if y.size() <= 32:
            return n2r(ex, y if y.size() == 32 else z3.ZeroExt(32 - y.size(), y))
    if x.decl().kind() == z3.Z3_OP_CONCAT and z3.is_bv_value(x.children()[0]) and x.children()[0].as_long() == 0 and len(x.children()) == 2:
        y = x.children()[1]
        if y.size() <= 32:
            return n2r(ex, z3.simplify(y if y.size() == 32 else z3.ZeroExt(32 - y.size(), y)))
    return I2RF(x)


def i2r_axioms(t):
    """I2R is linear wherever the bit-vector expression does not wrap"""
    x = t.children()[0]
    terms, c = lin(x)
    ax = []
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
        k, a, b = x.children()
        return [t == z3.If(k, i2r(None, a), i2r(None, b))]
    if len(terms) == 1 and c == 0 and list(terms.values())[0][1] == 1:
        return [z3.Implies(x == 0, t == 0)]
    W = 160
    if any(abs(k) > 1 << 20 for _, k in terms.values()) or len(terms) > 8:
        return []
    wide = z3.BitVecVal(c, W)
    real = z3.RealVal(c)
    for y, k in terms.values():
        wide = wide + z3.BitVecVal(k, W) * z3.SignExt(W - 64, y)
        real = real + k * i2r(None, y)
    return [z3.Implies(z3.SignExt(W - 64, x) == wide, t == real)]


def n2r_axioms(t):
    x = t.children()[0]
    terms, c = lin(x)
    ax = [t >= 0, z3.Implies(z3.ULE(x, 9), t <= 9), z3.Implies(x == 0, t == 0), z3.Implies(t == 0, x == 0)]
    return ax


RMUL = z3.Function("RMUL", RS, RS, RS)


def rlin(x):
    """coefficient and rest of a product with a constant"""
    if z3.is_rational_value(x):
        return x, None
    k = x.decl().kind()
    if k == z3.Z3_OP_UMINUS:
        c, r = rlin(x.children()[0])
        return z3.simplify(-c), r
    if k == z3.Z3_OP_MUL and z3.is_rational_value(x.children()[0]):
        c = x.children()[0]
        rest = x.children()[1:]
        r = rest[0] if len(rest) == 1 else z3.Product(*rest)
        c2, r2 = rlin(r)
        return z3.simplify(c * c2), r2
    return z3.RealVal(1), x


def rmul(a, b):
    """product of two reals: by constants natively, otherwise the uninterpreted RMUL with constants pulled out and arguments in
    a canonical order (commutativity); further laws of multiplication are instantiated where needed (rmul_axioms)"""
    a, b = z3.simplify(a), z3.simplify(b)
    ca, ra = rlin(a)
    cb, rb = rlin(b)
    c = z3.simplify(ca * cb)
    if ra is None and rb is None:
        return c
    if ra is None or rb is None:
        return z3.simplify(c * (ra if rb is None else rb))
    if ra.get_id() > rb.get_id():
        ra, rb = rb, ra
    m = RMUL(ra, rb)
    KEEP.append(m)
    return z3.simplify(c * m)


KEEP = []


def install_reals(ex):
    ex.rmul = rmul

    def rmul_axioms(t):
        a, b = t.children()
        ax = [z3.Implies(a == 0, t == 0), z3.Implies(b == 0, t == 0), z3.Implies(a == 1, t == b), z3.Implies(b == 1, t == a),
              t == RMUL(b, a)]
        if a.get_id() == b.get_id():
            ax.pop()
        for x, y in ((a, b), (b, a)):
            if z3.is_app(y) and y.decl().name() == "PW":
                # associativity with the definition of PW
                q, e = y.children()
                z = y.decl()(rmul(q, q), z3.LShR(e, 1))
                ax.append(t == z3.If(e == 0, x, z3.If(z3.Extract(0, 0, e) == 1, RMUL(rmul(x, q), z), RMUL(x, z))))
        return ax
    ex.th.lemma(RMUL, rmul_axioms)
    ex.th.lemma(I2RF, i2r_axioms)
    ex.th.lemma(N2RF, n2r_axioms)

    def bv2real(v, signed):
        if v.size() == 32 and not signed:
            return n2r(ex, v)
        if v.size() == 32 and signed:
            return i2r(ex, z3.SignExt(32, v))
        if v.size() == 64 and signed:
            return i2r(ex, v)
        if v.size() < 32:
            return i2r(ex, z3.SignExt(64 - v.size(), v) if signed else z3.ZeroExt(64 - v.size(), v))
        raise Unsupported("unsigned 64-bit to real")
    ex.bv2real = bv2real


# ------------------------------------------------------------------ abstract decoder and encoder
def install_codecs(ex, L):
    ex.ghost_havoc["lexk"] = lambda ex, v, k: ex.fresh("k", "int")
    ex.ghost_havoc["lexpos"] = lambda ex, v, k: None if v is None else ex.fresh("pos", "int")

    def dec(ex, st, fp, args, I):
        """contract of every decoder (C01): the next code point, or end of input, or a failed stream"""
        is_, cp = args
        o = is_.obj
        if o not in L.P:
            raise Unsupported("decoder called on another stream")
        q = ios_of(ex, st, is_)
        if "check" in L.P[o]:
            L.P[o]["check"](st, q)
        outs = []
        st.g[("lexpos", o)] = None
        for s, ok in split(ex, st, good(st, q)):
            if not ok:
                # the end was reached before (a failed stream never gets here: the lexer raises an error)
                ex.oblige(s, toB(iget(s, q, "eof")), "decoder is not called again after it failed")
                setstate(s, q, fail=True)
                ex.store(s, cp, IntTy(32), ex.fresh("cp", 32))
                outs.append((s, ("ret", False)))
                continue
            k = s.g[("lexk", o)]
            k = z3.IntVal(k) if isinstance(k, int) else k
            for s2, more in split(ex, s, k < L.N):
                if more:
                    ex.store(s2, cp, IntTy(32), L.CP(z3.simplify(k)))
                    s2.g[("lexk", o)] = z3.simplify(k + 1)
                    outs.append((s2, ("ret", True)))
                    continue
                for s3, bad in split(ex, s2, L.BAD):
                    ex.store(s3, cp, IntTy(32), ex.fresh("cp", 32))
                    if bad:
                        iset(s3, q, "eof", ex.fresh("eof", "bool"))
                        iset(s3, q, "fail", True)
                        outs.append((s3, ("ret", True)))
                    else:
                        iset(s3, q, "eof", True)
                        iset(s3, q, "fail", ex.fresh("fail", "bool"))
                        outs.append((s3, ("ret", False)))
        return outs
    ex.abs_cmp[("call", "decoder")] = dec
    ex.abs_cmp[("eq", "decoder")] = lambda ex, x, y: False if isinstance(y, Ptr) else None
    ex.abs_cmp[("eq", "encoder")] = lambda ex, x, y: False if isinstance(y, Ptr) else None

    def enc(ex, st, fp, args, I):
        """contract of every encoder (C01): ASCII as itself, other code points as their text, or a failed stream"""
        os_, c = args
        q = ios_of(ex, st, os_)
        ct = iget(st, q, "ct")
        c = bv(c, 32)
        outs = []
        for s, ok in split(ex, st, good(st, q)):
            if not ok:
                setstate(s, q, fail=True)
                outs.append((s, ("ret", None)))
                continue
            for s2, asc in split(ex, s, z3.ULT(c, 0x80)):
                if asc:
                    ch = z3.simplify(z3.Extract(7, 0, c)) if CHARW[ct] == 8 else c
                    res = [(s3, o, eof32) for s3, o, eof32 in ((s3, o, None) for s3, o in vcall(ex, s2, iget(s2, q, "rdbuf"), "overflow", [z3.simplify(z3.ZeroExt(24, ch)) if CHARW[ct] == 8 else c]))]
                    for s3, o, _ in res:
                        if o[0] == "throw":
                            setstate(s3, q, bad=True)
                        outs.append((s3, ("ret", None)))
                    continue
                for s3, can in split(ex, s2, L.EOK(c)):
                    if not can:
                        setstate(s3, q, fail=True)
                        outs.append((s3, ("ret", None)))
                        continue
                    t = L.ETXT(c)
                    for s4, o in vcall(ex, s3, iget(s3, q, "rdbuf"), "xsputn", [Abs("cstr", t), LEN(t)]):
                        if o[0] == "throw":
                            setstate(s4, q, bad=True)
                        outs.append((s4, ("ret", None)))
        return outs
    ex.abs_cmp[("call", "encoder")] = enc


# ------------------------------------------------------------------ the parser object
def class_of(src, val):
    v = {"char": "value_tplargs", "wchar_t": "wvalue_tplargs"}[val]
    return "json_parser<configor::basic_value<configor::%s>, %s>" % (v, src)


def mk_parser(ex, L, st, src, val, p0, cls=None):
    """an arbitrary parser in lexer state at position p0 (0 <= p0 <= N)"""
    cls = cls or class_of(src, val)
    mem = ex.mod.members(cls)
    if mem is None:
        raise Unsupported("no class " + cls)
    size = ex.mod.class_size(cls)
    o = ex.alloc(st, "parser", size, "parser")
    vt = [g for g in ex.mod.globals if g.startswith("_ZTV") and ex.mod.demg(g).endswith("configor::detail::" + cls)]
    if not vt:
        raise Unsupported("no vtable of " + cls)
    g = ex.global_ptr(vt[0])
    ex.store(st, Ptr(o.obj, 0), PTR, Ptr(g.obj, 16))
    is_off = field(mem, "is_")
    ex.store(st, Ptr(o.obj, is_off), PTR, vtable_for(ex, 16))
    sb = ex.alloc(st, "srcbuf", None, "sbuf", lazy=True)
    q = Ptr(o.obj, is_off + 16)
    ios_init(ex, st, q, sb, src)
    N, BAD = L.N, L.BAD
    st.assume(z3.And(p0 >= 0, p0 <= N, N >= 0))
    st.assume(z3.Implies(p0 == N, z3.Not(BAD)))
    L.P[o.obj] = dict(ios=is_off + 16, cur=field(mem, "current_", 4), mem=mem)
    iset(st, q, "eof", p0 == N)
    iset(st, q, "fail", z3.And(p0 == N, ex.fresh("failbit", "bool")))
    iset(st, q, "bad", False)
    st.g[("lexk", o.obj)] = z3.If(p0 == N, N, p0 + 1)
    st.g[("lexpos", o.obj)] = p0
    ex.store(st, Ptr(o.obj, field(mem, "err_handler_")), PTR, Abs("unk", z3.BitVec("err_handler", 64)))
    ex.store(st, Ptr(o.obj, field(mem, "source_decoder_")), PTR, Abs("decoder"))
    ex.store(st, Ptr(o.obj, field(mem, "target_encoder_")), PTR, Abs("encoder"))
    for nm, (off, sz) in mem.items():
        if nm in ("is_", "err_handler_", "source_decoder_", "target_encoder_"):
            continue
        if nm == "current_":
            ex.store(st, Ptr(o.obj, off), IntTy(32), L.CUR(p0))
        elif sz == 8 and "float" in nm:
            ex.store_cell(st, Ptr(o.obj, off), 8, ex.fresh(nm, "real"))
        elif sz in (1, 2, 4, 8):
            v = ex.fresh(nm, 8 * sz)
            if sz == 1:
                st.assume(z3.ULE(v, 1))
            ex.store_cell(st, Ptr(o.obj, off), sz, v)
    return o


def field(mem, name, size=None):
    if name in mem:
        return mem[name][0]
    raise Unsupported("field %s not found" % name)


def lex_state(L, st, o):
    """the lexer's class invariant at position pos(st)"""
    P = L.P[o]
    ex = L.ex
    q = Ptr(o, P["ios"])
    e, f, b = [toB(iget(st, q, x)) for x in ("eof", "fail", "bad")]
    k = st.g[("lexk", o)]
    cur = ex.load(st, Ptr(o, P["cur"]), IntTy(32))
    if cur is UNDEF:
        return z3.BoolVal(False)
    cur = bv(cur, 32)
    N = L.N
    r = [z3.Not(b), k >= 0, k <= N, z3.If(e, z3.And(k == N, z3.Not(L.BAD), cur == 0), z3.And(z3.Not(f), k >= 1, cur == L.CP(k - 1)))]
    g = st.g.get(("lexpos", o))
    if g is not None:
        r += [g >= 0, g <= N, e == (g == N), k == z3.If(g == N, N, g + 1), cur == L.CUR(g)]
    return z3.And(r)


def set_lex_state(L, st, o, p):
    """canonical lexer state at position p (0 <= p <= N)"""
    P = L.P[o]
    ex = L.ex
    q = Ptr(o, P["ios"])
    N = L.N
    iset(st, q, "eof", p == N)
    iset(st, q, "fail", z3.And(p == N, ex.fresh("failbit", "bool")))
    iset(st, q, "bad", False)
    st.g[("lexk", o)] = z3.If(p == N, N, p + 1)
    st.g[("lexpos", o)] = p
    ex.store(st, Ptr(o, P["cur"]), IntTy(32), L.CUR(p))
    st.assume(z3.And(p >= 0, p <= N, z3.Implies(p == N, z3.Not(L.BAD))))


class Lexing(Contract):
    """common part of the contracts over the parser object"""

    def __init__(self, name, L, src, val):
        self.name, self.L, self.src, self.val = name, L, src, val
        self.p0 = z3.Int("p0")

    def parser(self, ex, st):
        self.o = mk_parser(ex, self.L, st, self.src, self.val, self.p0)
        return self.o

    def at(self, want):
        """post: the lexer is in its state at position want"""
        L, o = self.L, self.o.obj
        return [("position", lambda s, r: L.pos(s, o) == want), ("lexer state", lambda s, r: lex_state(L, s, o))]

    def bind(self, ex, st, args):
        return True

    def frame_objs(self, ctx):
        return (self.o.obj,)

    def hint(self, ex, m):
        """the code points of the counterexample"""
        L = self.L
        ev = lambda x: m.eval(x, model_completion=True)
        try:
            p, n = ev(self.p0).as_long(), ev(L.N).as_long()
            if n - p > 40 or n < p:
                n = p + 40
            cps = []
            for i in range(p, n):
                cps.append(ev(L.CP(i)).as_long())
            return "cp:" + ",".join("%x" % c for c in cps)
        except Exception:
            return None


class MoveC(Lexing):
    """contract of a function that moves the lexer from position p to to(p), or throws if that is -1"""

    def __init__(self, name, L, src, val, to, res=None, mono=True):
        Lexing.__init__(self, name, L, src, val)
        self.to, self.res, self.mono = to, res, mono

    def setups(self, ex):
        st = State()
        o = self.parser(ex, st)
        yield "", st, [o]

    def bind(self, ex, st, args):
        a = args[0]
        if not isinstance(a, Ptr) or a.obj not in self.L.P:
            return None
        return (a.obj, self.L.pos(st, a.obj), self.L.P[a.obj])

    def requires(self, ex, st, ctx):
        o, p, P = ctx
        return [("lexer state", lex_state(self.L, st, o))]

    def measure(self, ex, st, ctx):
        return self.L.N - ctx[1] + 1

    def modifies(self, ctx):
        o, p, P = ctx
        return [("c", o, P["cur"], 4)] + [("g", ("ios", o, P["ios"], f)) for f in ("eof", "fail", "bad")] + [("g", ("lexk", o)), ("g", ("lexpos", o))]

    def frame_objs(self, ctx):
        return ()

    def apply_case(self, ex, s, ctx, c):
        if c.out[0] == "throw":
            Contract.apply_case(self, ex, s, ctx, c)
            s.g[("lexpos", ctx[0])] = None
        else:
            set_lex_state(self.L, s, ctx[0], self.to(ctx[1]))

    def cases(self, ex, st, ctx):
        L = self.L
        o, p, P = ctx
        e = self.to(p)
        post = [("position", lambda s, r: L.pos(s, o) == e), ("lexer state", lambda s, r: lex_state(L, s, o)), ("does not pass the end", lambda s, r: e <= L.N)]
        if self.mono:
            post.append(("does not go back", lambda s, r: e >= p))
        ret = self.res(p) if self.res else None
        return [Case(e < 0, ("throw", DESER), name="rejected"), Case(e >= 0, ("ret", ret), post=post, name="moves")]


def sccs_of(mod, roots, pred):
    """recursive groups of defined functions reachable from roots -> [set]"""
    index, low, onst, stack, out = {}, {}, set(), [], []
    cnt = [0]
    cg = {}

    def callees(n):
        if n not in cg:
            f = mod.funcs[n]
            r = []
            f.body()
            for b in f.blocks.values():
                for I in b.ins:
                    if I.op in ("call", "invoke"):
                        c = I.x["callee"]
                        if c.k == "global":
                            m = mod.resolve(c.v)
                            g = mod.funcs.get(m)
                            if g and g.defined and pred(m) and m not in r:
                                r.append(m)
            cg[n] = r
        return cg[n]

    def rec(n):
        index[n] = low[n] = cnt[0]
        cnt[0] += 1
        stack.append(n)
        onst.add(n)
        for m in callees(n):
            if m not in index:
                rec(m)
                low[n] = min(low[n], low[m])
            elif m in onst:
                low[n] = min(low[n], index[m])
        if low[n] == index[n]:
            c = set()
            while True:
                m = stack.pop()
                onst.discard(m)
                c.add(m)
                if m == n:
                    break
            if len(c) > 1 or n in callees(n):
                out.append(c)
    for r in roots:
        if r not in index:
            rec(r)
    return out, cg


def lex_executor(mod, src, val, name="", fam=("SKIP", "LINE", "BLOCK"), texts=False, numbers=False, nofail=False, **kw):
    from models import new_executor
    ex = new_executor(mod, name, **kw)
    ex.merge = True
    ex.eager = True
    L = Lex(ex)
    L.P = {}
    install_reals(ex)
    install_codecs(ex, L)
    ex.inv_pool = lex_pool(L, fam, texts, numbers)
    ex.measures = lex_measures(L)
    ex.rounds = 3
    ex.cand_timeout = 40000
    ex.timeout = 60000
    cls = re.escape("configor::detail::" + class_of(src, val)) + "::"
    if texts:
        ex.canon = hex_canon(ex, L)
    # error helpers always throw (their bodies are targets of their own)
    def fail(ex, st, name, args, I):
        return [(st, ("throw", ex.make_exc(st, DESER)))]
    if not nofail:
        ex.add_contract(r"^(void )?(configor::detail::(json_parser|basic_parser)<.*>::fail)(<.*>)?\(", fail, "fail() always throws configor_deserialization_error", trusted=False, front=True)
    ex.nexts = []
    for n, f in mod.funcs.items():
        if f.defined and re.search("^" + cls + r"read_next\(\)$", mod.dem(n)) and len(f.params) == 1 and f.ret.k == "i" and f.ret.n == 32:
            c = MoveC("read_next()", L, src, val, L.NX, res=lambda p: L.CUR(L.NX(p)))
            ex.nexts.append((n, c))
            ex.add_contract("^" + re.escape(mod.dem(n)) + "$", c.handler, c.name + " contract", trusted=False, front=True)
    # recursive white-space functions
    ex.skips = []
    scan = virt(mod, src, val, "scan")
    groups, cg = sccs_of(mod, [scan], lambda n: re.search(cls, mod.dem(n)))
    inside = set().union(*groups) if groups else set()
    entries = [n for g in groups for n in sorted(g) if any(n in cg.get(c, ()) for c in cg if c not in g) or n == scan]
    for n in entries:
        if n == scan or len(mod.funcs[n].params) != 1:
            continue
        c = MoveC(mod.dem(n).split("::")[-1], L, src, val, L.SKIP)
        ex.skips.append((n, c))
        ex.add_contract("^" + re.escape(mod.dem(n)) + "$", c.handler, c.name + " contract", trusted=False, front=True)
    return ex, L


def hex_canon(ex, L):
    """a result proved to be the value of the four hex digits just read is written as that value"""
    def before(st):
        os_ = [o for o in L.P if o in st.mem]
        return (os_[0], L.pos(st, os_[0])) if len(os_) == 1 else None

    def after(pre, s, o):
        if o[0] != "ret" or not z3.is_bv(o[1]) or z3.is_const(o[1]) or pre[0] not in s.mem:
            return s, o
        p, v = pre[1], o[1]
        end = L.pos(s, pre[0])
        if not simp(end).eq(simp(L._q(p)[3])):
            return s, o
        if all(ex.prove(s, g, rounds=1, timeout=10000)[0] == "proved" for g in (L.HEXE(p) == end, L.HEXV(p) == v)):
            s = s.copy()
            s.assume(L.HEXE(p) == end)
            return s, ("ret", L.HEXV(p))
        return s, o
    return before, after


def virt(mod, src, val, name):
    """the override of a virtual function, found by name"""
    rx = r"configor::detail::%s::%s\(" % (re.escape(class_of(src, val)), name)
    out = [n for n, f in mod.funcs.items() if f.defined and re.search("^" + rx, mod.dem(n))]
    if not out:
        raise Unsupported("no function " + rx)
    return out[0]


def lex_pool(L, fam, texts=True, numbers=True):
    def pool(ex, st, f, header, M):
        out = []
        os_ = [o for o in L.P if o in st.mem]
        for o in os_:
            out.append(("lexer state", lambda s, o=o: lex_state(L, s, o)))
            P0 = L.pos(st, o)
            pos = lambda s, o=o: L.pos(s, o)
            e0 = iget(st, Ptr(o, L.P[o]["ios"]), "eof")
            out.append(("not at the end", lambda s, o=o: z3.Not(toB(iget(s, Ptr(o, L.P[o]["ios"]), "eof")))))
            out.append(("position does not go back", lambda s: pos(s) >= P0))
            NX = L.NX
            at = [("", lambda p: p), ("next ", NX)]
            for nm in fam:
                F = getattr(L, nm)
                for pre, g in at:
                    out.append(("%s of %sposition" % (nm, pre), lambda s, F=F, g=g: F(g(pos(s))) == F(g(P0))))
            for pre, g in at:
                out.append(("%sposition is a digit" % pre, lambda s, g=g: z3.And(g(pos(s)) >= 0, L.isd(L.CUR(g(pos(s)))))))
            tx = [] if not texts else [k for _, k in [m for m in M if m[0] == "ghost"] if z3.is_expr(st.g.get(k)) and st.g[k].sort() == TXT]
            for k in tx:
                for pre, g in at:
                    out.append(("string read so far (%s%s)" % (pre, k), lambda s, g=g, k=k: L.STRT(s.g[k], g(pos(s))) == L.STRT(st.g[k], g(P0))))
            for m in M:
                if m[0] == "ghost" and isinstance(m[1], tuple) and m[1][0] == "ios" and m[1][1] != o:
                    out.append(("stream state %s unchanged" % (m[1],), lambda s, k=m[1]: toB(s.g[k]) == toB(st.g[k]) if isinstance(st.g[k], bool) or z3.is_bool(st.g[k]) else None))
            cells = [(ob, off, n) for m in M if m[0] == "cell" for _, ob, off, n in [m]]

            def cell(s, c, n=None):
                v = ex.get_cells(s, c[0]).get(c[1], (0, None))
                return v[1] if v[0] == c[2] else None

            def isbv(v, n):
                return isinstance(v, int) and not isinstance(v, bool) or z3.is_expr(v) and z3.is_bv(v) and v.size() == n
            flags = [c for c in cells if c[2] == 1]
            for c in cells:
                v0 = cell(st, c)
                if v0 is None or v0 is UNDEF:
                    continue
                nm = ex.objs[c[0]].name + "+%d" % c[1]
                if c[2] == 1 and isbv(v0, 8):
                    out.append(("flag %s is 0 or 1" % nm, lambda s, c=c: z3.ULE(bv(cell(s, c), 8), 1)))
                if c[2] == 8 and isbv(v0, 64):
                    out.append(("%s <= 0" % nm, lambda s, c=c: bv(cell(s, c), 64) <= 0))
                    out.append(("%s >= 0" % nm, lambda s, c=c: bv(cell(s, c), 64) >= 0))
                if not numbers:
                    continue
                if c[2] == 8 and isbv(v0, 64):
                    Z = lambda s, c: bv(cell(s, c), 64)
                    reps = [("-", lambda s, c=c: z3.SignExt(4, -Z(s, c)), True), ("+", lambda s, c=c: z3.SignExt(4, Z(s, c)), True),
                            ("u", lambda s, c=c: z3.ZeroExt(4, Z(s, c)), False)]
                    # -INT64_MIN: magnitude 2^63
                    reps[0] = ("-", lambda s, c=c: -z3.SignExt(4, Z(s, c)), True)
                    for pre, g in at:
                        for rn, R_, _ in reps:
                            A = lambda s, g=g, R_=R_: L.ACC(R_(s), g(pos(s))) == L.ACC(R_(st), g(P0))
                            out.append(("integer read so far (%s%s%s)" % (pre, rn, nm), A))
                            for fl in flags:
                                def G(s, A=A, fl=fl, g=g, R_=R_):
                                    return z3.If(bv(cell(s, fl), 8) == 0, A(s), z3.UGT(L.ACC(R_(st), g(P0)), L.MAX))
                                out.append(("integer read so far unless overflow %s+%d (%s%s%s)" % (ex.objs[fl[0]].name, fl[1], pre, rn, nm), G))
                        out.append(("magnitude %s in range" % nm, lambda s, c=c: z3.ULE(-Z(s, c), z3.BitVecVal(1 << 63, 64))))
                if c[2] == 8 and (z3.is_expr(v0) and z3.is_real(v0)):
                    V = cell
                    for pre, g in at:
                        for sg in (1, -1):
                            out.append(("number read so far (%s%+d %s)" % (pre, sg, nm), lambda s, c=c, g=g, sg=sg: L.ACCR(sg * V(s, c), g(pos(s))) == L.ACCR(sg * V(st, c), g(P0))))
                        for d in cells:
                            w0 = cell(st, d)
                            if d != c and z3.is_expr(w0) and z3.is_real(w0):
                                out.append(("fraction read so far (%s%s,%s)" % (pre, nm, d), lambda s, c=c, d=d, g=g: L.FRAC(V(s, c), rmul(V(s, d), L.tenth), g(pos(s))) == L.FRAC(V(st, c), rmul(V(st, d), L.tenth), g(P0))))
                                out.append(("fraction read so far' (%s%s,%s)" % (pre, nm, d), lambda s, c=c, d=d, g=g: L.FRAC(V(s, c), V(s, d), g(pos(s))) == L.FRAC(V(st, c), V(st, d), g(P0))))
                    for d in cells:
                        w0 = cell(st, d)
                        if d[2] == 8 and isbv(w0, 64):
                            for fl in [None] + flags:
                                for sg in (1, -1):
                                    def G(s, c=c, d=d, fl=fl, sg=sg):
                                        q = V(s, c) == sg * i2r(ex, bv(cell(s, d), 64))
                                        return q if fl is None else z3.Implies(bv(cell(s, fl), 8) == 0, q)
                                    out.append(("%s is %+d * %s%s" % (nm, sg, d, "" if fl is None else " unless %s" % (fl,)), G))
                        if d[2] == 4 and isbv(w0, 32):
                            for d2 in cells:
                                w2 = cell(st, d2)
                                if d2 != c and z3.is_expr(w2) and z3.is_real(w2):
                                    out.append(("power %s * %s^%s" % (nm, d2, d), lambda s, c=c, d=d, d2=d2: rmul(V(s, c), L.PW(V(s, d2), bv(cell(s, d), 32))) == rmul(V(st, c), L.PW(V(st, d2), bv(cell(st, d), 32)))))
                if c[2] == 4 and isbv(v0, 32) and not (c[0] == o and c[1] == L.P[o]["cur"]):
                    Z = lambda s, c=c: bv(cell(s, c), 32)
                    for pre, g in at:
                        def G(s, g=g, Z=Z):
                            E0 = L.EACC(Z(st), g(P0))
                            return z3.If(z3.ULT(Z(s), L.EBIG), L.EACC(Z(s), g(pos(s))) == E0, z3.UGE(E0, L.EBIG))
                        out.append(("exponent read so far (%s%s)" % (pre, nm), G))
        return out
    return pool


def lex_measures(L):
    def meas(ex, head):
        out = []
        for o in L.P:
            if o in head.mem:
                out.append(("characters left", lambda s, o=o: L.N - s.g[("lexk", o)] + z3.If(toB(iget(s, Ptr(o, L.P[o]["ios"]), "eof")), 0, 1)))
        return out
    return meas


FAILRX = r"^(?:void )?configor::detail::(?:json_parser|basic_parser)<.*>::fail(?:<.*>)?\("


class FailC(Lexing):
    """the error helpers never return normally: they throw configor_deserialization_error"""

    def setups(self, ex):
        st = State()
        o = self.parser(ex, st)
        f = ex.mod.funcs[self.fname]
        args = [o]
        for pn, ty, at in f.params[1:]:
            if ty.k == "ptr":
                s = ex.alloc(st, pn, 32, "string")
                st.g[("str", s.obj, 0)] = ex.fresh(pn, TXT)
                args.append(s)
            else:
                v = ex.fresh(pn, ty.n)
                if ty.n == 32 and pn.endswith("token"):
                    st.assume(z3.ULE(v, max(ex.mod.enum("token_type").values())))
                args.append(v)
        yield "", st, args

    def cases(self, ex, st, ctx):
        return [Case(True, ("throw", DESER), name="throws configor_deserialization_error")]

    def frame_objs(self, ctx):
        return (self.o.obj,)


def run_fails(insts):
    from harness import Result, harvest

    def run(mod):
        tot = None
        for src, val in insts:
            cls = re.escape("json_parser<configor::basic_value<configor::%s>, %s>" % ({"char": "value_tplargs", "wchar_t": "wvalue_tplargs"}[val], src))
            cls = "(" + cls + "|" + cls.replace("json_parser", "basic_parser") + ")"
            fns = [n for n, f in mod.funcs.items() if f.defined and re.search(r"^(void )?configor::detail::%s::fail(<.*>)?\(" % cls, mod.dem(n))]
            for n in fns:
                ex, L = lex_executor(mod, src, val, nofail=True)
                c = FailC(mod.dem(n).split("configor::detail::")[1].split(">::")[-1], L, src, val)
                c.fname = n
                c.verify(ex, n)
                r = harvest(ex, [mod.dem(n)])
                if tot is None:
                    tot = r
                else:
                    tot.obls += r.obls
                    tot.functions += r.functions
                    tot.inlined = sorted(set(tot.inlined) | set(r.inlined))
                    tot.trusted += r.trusted
                    tot.solver_time += r.solver_time
                    tot.queries += r.queries
                    tot.covers.update(r.covers)
                    tot.paths += r.paths
        if tot is None:
            tot = Result()
            tot.obls.append(dict(name="no error helper", ok=True, status="proved", fn="", line=0, t=0, backend="none"))
        return tot
    return run
