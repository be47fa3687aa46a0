"""C20: induction steps that tie the serializer's specification (Doc, Strs, the number texts) to the parser's (Lex, the token table
of ScanC, Tok).  The functions below are the very definitions the code is verified against; nothing is restated here.

A dumped text X is a sequence of code points CP(0..N-1) (decoding an encoded text: C01).  PRE(t): t is a prefix of X; POS(t): the
number of its code points.  Appending one character to a text that is a prefix puts that character at its position."""
import time
import z3
from sym import State, Obl, simp
from stdlib import TXT, EMPTY, PUT, PUTN, CATT, HASCH
from models import new_executor
from values import *
from values import axioms
from lexer import Lex, install_reals, n2r, rmul, RS, B68, I, N2RF
from tokens import Tok
from dumper import Doc, ch, puts, W, NL, F64, B16, B32
from scalars import Strs, DECI, FMT
from harness import harvest

B = z3.BoolSort()
PRE, POS = z3.Function("PRE", TXT, B), z3.Function("POS", TXT, I)
And, Or, Not, Imp, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If


class RT:
    def __init__(self, mod, pretty=False, esc=None):
        self.ex = ex = new_executor(mod, "round trip", fpmode="fp", timeout=60000)
        ex.rounds = 30
        axioms(ex.th)
        install_reals(ex)
        self.X = Strs(ex, z3.Bool("ESC"), tag="_s")           # the text being written
        self.L = L = Lex(ex)                                   # the text being read
        self.T = Tok(ex)
        self.D = D = Doc(ex, pretty)
        self.pretty = pretty
        D.fill, D.step = z3.BitVec("fill", 32), z3.BitVec("step", 8)
        self.fillok = Or([D.fill == c for c in (32, 9, 10, 13)])
        th = ex.th
        self.defs = {}
        # recursive definitions are unfolded where a lemma says so
        for d in (L.SKIP, L.LINE, L.BLOCK, L.DIGEND, L.ACC, L.ACCR, L.FRAC, L.EACC, L.PW, L.STRE, L.STRT, self.X.STRJ, self.X.SBADJ, self.T.TOK, self.T.TEND,
                  self.T.PE, self.T.PV, self.T.AE, self.T.AV, self.T.OE, self.T.OV, D.VAL, D.ARR, D.OBJT, D.VBAD, D.ABAD, D.OBAD, L.HEXE, L.HEXV):
            self.defs[d.get_id()] = th.defs.pop(d.get_id(), None)
        for d in (SNTH, OVAL):
            pass
        self.facts = [Not(L.BAD), L.N >= 0]
        th.lemma(PRE, self.pre)
        th.lemma(POS, lambda t: [t == If(t.arg(0).arg(0), POS(t.arg(0).arg(1)), POS(t.arg(0).arg(2)))] if z3.is_app_of(t.arg(0), z3.Z3_OP_ITE) else [t >= 0])
        th.lemma(L.CP, lambda t: [z3.ULE(t, 0x10FFFF)])
        th.lemma(N2RF, lambda t: [Imp(t.arg(0) == k, t == k) for k in range(10)])
        self.table()

    def pre(self, t):
        x = t.arg(0)
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            return [t == If(x.arg(0), PRE(x.arg(1)), PRE(x.arg(2)))]
        n = x.decl().name()
        c = None
        if n == "PUT":
            T, c = x.children()
        elif x.decl().eq(CATT) and x.arg(1).decl().name() == "ETXT":
            T, c = x.arg(0), x.arg(1).arg(0)          # C01: the units of c are decoded as c
        if c is None:
            return []
        return [Imp(t, And(PRE(T), POS(T) >= 0, POS(T) < self.L.N, self.L.CP(POS(T)) == c, POS(x) == POS(T) + 1))]

    def unf(self, t):
        """the definition of a recursive spec function at one place"""
        d = self.defs[t.decl().get_id()]
        assert d is not None, t.decl()
        ax = d[1](t)
        for a in list(ax):
            if t.sort() == TXT and z3.is_eq(a) and a.arg(0).eq(t):
                ax = ax + [PRE(t) == PRE(a.arg(1)), POS(t) == POS(a.arg(1))]
        return z3.And(ax)

    def table(self):
        """the tokens at character level: the cases of the contract of scan() (C04), with the contents of strings (C02) and numbers (C03)"""
        from C04 import ScanC
        L, T, ex = self.L, self.T, self.ex
        E = T.E

        class Table(ScanC):
            def __init__(s, p):
                s.L, s.p0 = L, p

            def at(s, want):
                return [want]
        k = lambda x: z3.BitVecVal(x, 32)

        def rows(p):
            tok, end = T.TOK(p), T.TEND(p)
            q = L.SKIP(p)
            num = L.number(q)
            ff = []
            for c in Table(p).cases(ex, None, None):
                if c.out is None:
                    ff.append(Imp(c.guard, And(tok == If(num["isf"], k(E["value_float"]), k(E["value_integer"])), end == If(num["err"], -1, num["end"]),
                                               Imp(And(Not(num["err"]), Not(num["isf"])), T.IV(p) == z3.Extract(63, 0, If(num["neg"], -num["mag"], num["mag"]))))))
                elif c.out[0] == "throw":
                    ff.append(Imp(c.guard, end == -1))
                elif c.out[1] == E["value_string"]:
                    ff.append(Imp(c.guard, And(tok == k(E["value_string"]), end == L.STRE(L.NX(q)), T.TX(p) == L.STRT(EMPTY, L.NX(q)))))
                else:
                    ff.append(Imp(c.guard, And(tok == k(c.out[1]), end == c.post[0])))
            return And(ff)
        self.rows = rows

    # ---- obligations
    def prove(self, name, goal, hyps, rounds=None, consts=()):
        ex = self.ex
        st = State()
        for h in self.facts + list(hyps):
            st.assume(h)
        ex.oblige(st, goal, "lemma: " + name, assume=False, rounds=rounds)
        # a lemma with contradictory hypotheses says nothing
        t = time.time()
        r, _ = ex.prove(st, z3.BoolVal(False), timeout=8000)
        ex.obls.append(Obl(name="lemma hypotheses are consistent: " + name, ok=r != "proved", status="proved" if r != "proved" else "failed", line=0, fn=None, t=time.time() - t, backend="z3", model=None, trace=()))

    # ---- statements
    def ws(self, a, b):
        """white space only between positions a and b"""
        return And(b >= a, self.L.SKIP(a) == self.L.SKIP(b))

    def before(self, p, T):
        """p: where the reader stands, at white space before what follows T"""
        return And(p >= 0, p <= POS(T), self.L.SKIP(p) == self.L.SKIP(POS(T)))

    def delim(self, e):
        """what may stand behind a value"""
        c = self.L.CUR(e)
        return And(e >= 0, e <= self.L.N, Or([e >= self.L.N] + [c == ord(x) for x in ",]}\n"]))

    def run_stmt(self, T, n):
        """a run of white space"""
        R = PUTN(T, self.D.fill, n)
        return Imp(And(PRE(R), self.fillok), And(PRE(T), self.ws(POS(T), POS(R))))


def lemma_space(mod):
    R = RT(mod, True)
    D, L = R.D, R.L
    T = z3.Const("T", TXT)
    n = z3.BitVec("n", 64)
    zero = z3.BitVecVal(0, 64)
    P = lambda n: PUTN(T, D.fill, n)
    R.prove("a run of no characters", R.run_stmt(T, zero), [P(zero) == T])
    e = POS(P(n))
    R.prove("a run of indentation characters is skipped", R.run_stmt(T, n + 1), [P(n + 1) == PUT(P(n), D.fill), PRE(P(n + 1)) == PRE(PUT(P(n), D.fill)), POS(P(n + 1)) == POS(PUT(P(n), D.fill)), R.run_stmt(T, n), R.unf(L.SKIP(e))])
    return harvest(R.ex, [])


def str_stmt(R, T, k, Y, S, RENC):
    """the literal from element k on: read back from the position of T"""
    L = R.L
    p, J = POS(T), R.X.STRJ(T, k)
    return Imp(And(PRE(J), Not(R.X.SBADJ(k))), And(PRE(T), POS(J) > p, p >= 0, L.STRE(p) == POS(J), L.STRT(Y, p) == RENC(Y, k)))


def renc(R):
    RENC = z3.Function("RENC", TXT, I, TXT)            # the code points from k on, appended in the encoding of the value
    X = R.X
    return RENC, lambda Y, k: RENC(Y, k) == If(k >= X.L.N, Y, RENC(R.L.ENC(Y, X.L.CP(k)), k + 1))


def lemma_string(mod, part):
    R = RT(mod)
    X, L, ex = R.X, R.L, R.ex
    S = X.L
    T, Y = z3.Const("T", TXT), z3.Const("Y", TXT)
    k = z3.Int("k")
    RENC, rdef = renc(R)
    c = S.CP(k)
    p = POS(T)
    valid = [z3.ULE(c, 0x10FFFF), Not(And(z3.UGE(c, 0xD800), z3.ULE(c, 0xDFFF))), Not(S.BAD)]           # well-formed text
    encok = lambda c: Imp(And(z3.ULE(c, 0x10FFFF), Not(And(z3.UGE(c, 0xD800), z3.ULE(c, 0xDFFF)))), L.EOK(c))      # C01: every scalar value is encoded
    end, txt = L._str(p, Y)
    if part == "end":
        R.prove("the closing quote ends the literal", str_stmt(R, T, k, Y, S, RENC), [k >= S.N, R.unf(X.STRJ(T, k)), rdef(Y, k), L.STRE(p) == end, L.STRT(Y, p) == txt])
        return harvest(ex, [])
    T2 = X.elem(T, c)
    NX = L.NX
    hexes = []
    for i in (1, 7):
        q = p + i
        hexes += [L.HEXE(q) == L._hexe(q), L.HEXV(q) == L._hexv(q)]
    base = valid + [k < S.N, k >= 0, R.unf(X.STRJ(T, k)), R.unf(X.SBADJ(k)), rdef(Y, k), L.STRE(p) == end, L.STRT(Y, p) == txt, encok(c)] + hexes
    # positions behind the element, as the reader reaches them
    groups = dict(short=Or([c == n for n, _ in X.SHORT]), control=And(z3.ULE(c, 0x1F), *[c != n for n, _ in X.SHORT]),
                  plain=And(z3.UGT(c, 0x1F), *[c != n for n, _ in X.SHORT], Not(And(X.esc, z3.UGE(c, 0x7F)))),
                  bmp=And(X.esc, z3.UGE(c, 0x7F), z3.ULE(c, 0xFFFF)), pair=And(X.esc, z3.UGT(c, 0xFFFF)))
    g = groups[part]
    step = Imp(And(PRE(X.STRJ(T2, k + 1)), Not(X.SBADJ(k + 1))), And(PRE(T2), POS(X.STRJ(T2, k + 1)) > POS(T2), L.STRE(POS(T2)) == POS(X.STRJ(T2, k + 1)),
               L.STRT(L.ENC(Y, c), POS(T2)) == RENC(L.ENC(Y, c), k + 1)))
    R.prove("a character is read back (%s)" % part, str_stmt(R, T, k, Y, S, RENC), base + [g, step])
    if part == "short":
        R.prove("every character is of one of the five kinds", Or(list(groups.values())), valid)
    return harvest(ex, [])


# ------------------------------------------------------------------ numbers
def mant(R):
    """DECA(T, m): the decimal digits of m appended to T, as operator<< writes them; MR(m): m as a real"""
    DECA = z3.Function("DECA", TXT, B68, TXT)
    MR = z3.Function("MR", B68, RS)
    return DECA, MR


def digits_stmt(R, DECA, MR, T, m):
    L = R.L
    p, M = POS(T), DECA(T, m)
    e = POS(M)
    z68, r0 = z3.BitVecVal(0, 68), z3.RealVal(0)
    return Imp(PRE(M), And(PRE(T), p >= 0, e > p, e <= L.N, L.isd(L.CUR(p)), (m == 0) == (L.CUR(p) == 48), Imp(m == 0, e == p + 1),
                           L.DIGEND(p) == L.DIGEND(e), L.ACC(z68, p) == L.ACC(m, e), L.ACCR(r0, p) == L.ACCR(MR(m), e)))


def lemma_digits(mod):
    R = RT(mod)
    L = R.L
    DECA, MR = mant(R)
    T = z3.Const("T", TXT)
    q, r = z3.BitVec("q", 68), z3.BitVec("r", 68)
    c = z3.Extract(31, 0, r) + 48
    N2 = lambda x: n2r(R.ex, x)
    p = POS(T)
    z68, r0 = z3.BitVecVal(0, 68), z3.RealVal(0)
    rl = [Imp(r == i, MR(r) == i) for i in range(10)]
    # one digit
    M = DECA(T, r)
    R.prove("one digit", digits_stmt(R, DECA, MR, T, r), [z3.ULE(r, 9), M == PUT(T, c), PRE(M) == PRE(PUT(T, c)), POS(M) == POS(PUT(T, c)), R.unf(L.DIGEND(p)), R.unf(L.ACC(z68, p)), R.unf(L.ACCR(r0, p)),
                                                          Or([r == i for i in range(10)])] + rl)
    # more digits
    m = q * 10 + r
    M, M1 = DECA(T, m), DECA(T, q)
    e1 = POS(M1)
    R.prove("one digit more", digits_stmt(R, DECA, MR, T, m), [z3.ULE(r, 9), z3.UGE(q, 1), z3.ULE(q, z3.BitVecVal((1 << 63) // 10, 68)), z3.ULE(m, L.MAX), M == PUT(M1, c), PRE(M) == PRE(PUT(M1, c)), POS(M) == POS(PUT(M1, c)),
                                                               digits_stmt(R, DECA, MR, T, q), R.unf(L.DIGEND(e1)), R.unf(L.ACC(q, e1)), R.unf(L.ACCR(MR(q), e1)),
                                                               MR(m) == MR(q) * 10 + MR(r)] + rl)
    m, ten = z3.BitVec("m", 68), z3.BitVecVal(10, 68)
    q, r = z3.UDiv(m, ten), z3.URem(m, ten)
    R.prove("every magnitude is one digit or a smaller one and a digit", Or(z3.ULE(m, 9), And(z3.ULE(r, 9), z3.UGE(q, 1), z3.ULT(q, m), z3.ULE(q, z3.BitVecVal((1 << 63) // 10, 68)), m == q * 10 + r)), [z3.ULE(m, L.MAX)])
    return harvest(R.ex, [])


def int_text(R, T, i):
    """IJ: the text of an integer"""
    DECA, MR = mant(R)
    i68 = z3.SignExt(4, i)
    neg = i < 0
    return DECA(If(neg, PUT(T, ch("-")), T), If(neg, -i68, i68))


def int_stmt(R, T, i, p):
    """an integer written behind T is the token at p"""
    L, K, D = R.L, R.T, R.D
    J = D.IJ(T, i)
    return Imp(PRE(J), And(PRE(T), POS(J) > POS(T), POS(T) >= 0, Imp(And(R.before(p, T), R.delim(POS(J))), And(K.TOK(p) == K.E["value_integer"], K.TEND(p) == POS(J), K.IV(p) == i))))


def lemma_integer(mod):
    R = RT(mod)
    L, D = R.L, R.D
    DECA, MR = mant(R)
    T = z3.Const("T", TXT)
    i = z3.BitVec("i", 64)
    p = z3.Int("p")
    J = int_text(R, T, i)
    m = J.arg(1)
    e, q = POS(J), POS(T)
    z68, r0 = z3.BitVecVal(0, 68), z3.RealVal(0)
    for nm, neg in (("negative", i < 0), ("not negative", i >= 0)):
        sg = z3.is_true(z3.simplify(z3.BoolVal(nm == "negative")))
        T1 = PUT(T, ch("-")) if sg else T
        m = -z3.SignExt(4, i) if sg else z3.SignExt(4, i)
        J = DECA(T1, m)
        e = POS(J)
        d = POS(T1)
        R.prove("an integer is read back (%s)" % nm, int_stmt(R, T, i, p), [neg, D.IJ(T, i) == J, PRE(D.IJ(T, i)) == PRE(J), POS(D.IJ(T, i)) == POS(J), digits_stmt(R, DECA, MR, T1, m), R.rows(p), R.unf(L.SKIP(q)), R.unf(L.DIGEND(e)),
                                                                            R.unf(L.ACC(m, e)), z3.ULE(m, L.MAX)])
        R.prove("magnitudes are within range (%s)" % nm, z3.ULE(m, L.MAX), [neg])
    return harvest(R.ex, [])


RUN = z3.Function("RUN", I, I, B)


def run_stmt(L, a, b):
    return Imp(RUN(a, b), And(a < b, L.isd(L.CUR(a)), L.DIGEND(a) == L.DIGEND(b)))


def gram(R, T, t, M):
    """a finite number as operator<< formats it: sign, digits, fraction, exponent; M: T followed by t"""
    L = R.L
    a, b = z3.Int("int_end"), z3.Int("frac_end")
    fr, xp = z3.Bool("has_fraction"), z3.Bool("has_exponent")
    p = POS(T)
    e = POS(M)
    CUR = L.CUR
    q = If(CUR(p) == ord("-"), p + 1, p)
    return a, b, fr, xp, Imp(PRE(M), And(PRE(T), p >= 0, e <= L.N, e > p, RUN(q, a), a <= b, b <= e, Imp(CUR(q) == 48, a == q + 1),
                                         If(fr, And(CUR(a) == ord("."), RUN(a + 1, b)), b == a),
                                         If(xp, And(CUR(b) == ord("e"), Or(CUR(b + 1) == ord("+"), CUR(b + 1) == ord("-")), RUN(b + 2, e)), b == e),
                                         Imp(And(xp, Not(fr)), CUR(q) != 48),
                                         Or(HASCH(t, ch(".")), HASCH(t, ch("e"))) == Or(fr, xp)))


def flt_stmt(R, T, f, p):
    L, K, D = R.L, R.T, R.D
    J = D.FJ(T, f)
    return Imp(PRE(J), And(PRE(T), POS(J) > POS(T), POS(T) >= 0, Imp(And(R.before(p, T), R.delim(POS(J))), And(K.TOK(p) == K.E["value_float"], K.TEND(p) == POS(J)))))


def lemma_float(mod):
    R = RT(mod)
    L, D = R.L, R.D
    ex = R.ex
    DECA, MR = mant(R)
    x, y = z3.Int("x"), z3.Int("y")
    R.prove("a run of digits is read as one", run_stmt(L, x, y), [RUN(x, y) == And(x < y, L.isd(L.CUR(x)), Or(x + 1 == y, RUN(x + 1, y))), run_stmt(L, x + 1, y), R.unf(L.DIGEND(x)), x >= 0])
    T, t = z3.Const("T", TXT), z3.Const("t", TXT)
    f = z3.FP("f", F64)
    p = z3.Int("p")
    q = POS(T)
    J = D.FJ(T, f)
    is_text = lambda M: [J == M, PRE(J) == PRE(M), POS(J) == POS(M)]
    # formatted
    for nm in ("marked", "fraction dropped"):
        M = CATT(T, t)
        a, b, fr, xp, G = gram(R, T, t, M)
        mk = Or(HASCH(t, ch(".")), HASCH(t, ch("e")))
        F = M if nm == "marked" else puts(M, ".0")
        e = POS(M)
        s = If(L.CUR(q) == ord("-"), q + 1, q)
        R.prove("a formatted float is read as a float (%s)" % nm, flt_stmt(R, T, f, p), is_text(F) + [mk if nm == "marked" else Not(mk), G, R.rows(p), R.unf(L.SKIP(q)), R.unf(L.DIGEND(a)), R.unf(L.DIGEND(b)), R.unf(L.DIGEND(e)),
                R.unf(L.DIGEND(e + 1)), R.unf(L.DIGEND(e + 2)), run_stmt(L, s, a), run_stmt(L, a + 1, b), run_stmt(L, b + 2, e)])
    # integral
    i = z3.BitVec("i", 64)
    z68, r0 = z3.BitVecVal(0, 68), z3.RealVal(0)
    for sg in (True, False):
        T1 = PUT(T, ch("-")) if sg else T
        m = -z3.SignExt(4, i) if sg else z3.SignExt(4, i)
        M = DECA(T1, m)
        F = puts(M, ".0")
        e = POS(M)
        nm = "negative" if sg else "not negative"
        s = L.SKIP(p)
        hy = is_text(F) + [(i < 0) == sg, digits_stmt(R, DECA, MR, T1, m), R.rows(p), R.unf(L.SKIP(q)), R.unf(L.DIGEND(e)), R.unf(L.DIGEND(e + 1)), R.unf(L.DIGEND(e + 2)),
                           R.unf(L.ACC(m, e)), R.unf(L.ACCR(MR(m), e)), R.unf(L.FRAC(MR(m), L.tenth, e + 1)), R.unf(L.FRAC(MR(m) , rmul(L.tenth, L.tenth), e + 2)), R.unf(L.FRAC(z3.RealVal(0), L.tenth, e + 1)), R.unf(L.FRAC(z3.RealVal(0), rmul(L.tenth, L.tenth), e + 2)), MR(z68) == 0]
        R.prove("an integral float is read as a float (%s)" % nm, flt_stmt(R, T, f, p), hy)
        v = L.number(s)["real"]
        R.prove("an integral float denotes its value (%s)" % nm, Imp(And(PRE(J), p >= 0, p <= q, L.SKIP(p) == L.SKIP(q), R.delim(POS(J))), v == (-MR(m) if sg else MR(m))), hy)
    return harvest(ex, [])


# ------------------------------------------------------------------ documents
class Docs:
    """the value read back; RSEQ / ROBJ: the elements / members from i on, appended / inserted as they are read"""

    def __init__(self, R):
        self.R = R
        F = z3.Function
        self.RB, self.RFLT = F("RB", V, V), F("RFLT", F64, F64)
        self.RSEQ, self.ROBJ = F("RSEQ", SEQ, SEQ, B64, SEQ), F("ROBJ", OBJ, OBJ, B64, OBJ)
        z = z3.BitVecVal(0, 64)
        RB = self.RB

        def rb(t):
            v = t.arg(0)
            return [t == If(V.is_vflt(v), V.vflt(self.RFLT(V.f(v))), If(V.is_varr(v), V.varr(self.RSEQ(SEMPTY, V.s(v), z)), If(V.is_vobj(v), V.vobj(self.ROBJ(OEMPTY, V.o(v), z)), v)))]
        R.ex.th.lemma(RB, rb)
        self.rseq = lambda S, s, i: self.RSEQ(S, s, i) == If(z3.UGE(i, SLEN(s)), S, self.RSEQ(SNOC(S, RB(SNTH(s, i))), s, i + 1))
        self.robj = lambda O, o, i: self.ROBJ(O, o, i) == If(z3.UGE(i, OLEN(o)), O, self.ROBJ(OINS(O, OKEY(o, i), RB(OVAL(o, i))), o, i + 1))

    # statements
    def val(self, T, v, d, p):
        R = self.R
        D, K, L = R.D, R.T, R.L
        J = D.VAL(T, v, d)
        return Imp(And(PRE(J), Not(D.VBAD(v))), And(PRE(T), POS(T) >= 0, POS(J) > POS(T),
                   Imp(And(R.before(p, T), R.delim(POS(J))), And(K.TEND(p) >= 0, K.start(K.TOK(p)), K.PE(p) == POS(J), K.PV(p) == self.RB(v)))))

    def follow(self, e, c):
        """white space and the closing bracket stand at e"""
        L = self.R.L
        z = L.SKIP(e)
        return And(z >= e, z < L.N, L.CUR(z) == ord(c), self.R.delim(e))

    def arr(self, T, s, i, d, p, S):
        R = self.R
        D, K, L = R.D, R.T, R.L
        A = D.ARR(T, s, i, d)
        z = L.SKIP(POS(A))
        return Imp(And(z3.ULT(i, SLEN(s)), PRE(A), Not(D.ABAD(s, i))), And(PRE(T), POS(T) >= 0, POS(A) > POS(T),
                   Imp(And(R.before(p, T), self.follow(POS(A), "]")), And(K.AE(p) == z + 1, K.AV(S, p) == self.RSEQ(S, s, i)))))

    def obj(self, T, o, i, d, p, O):
        R = self.R
        D, K, L = R.D, R.T, R.L
        A = D.OBJT(T, o, i, d)
        z = L.SKIP(POS(A))
        return Imp(And(z3.ULT(i, OLEN(o)), PRE(A), Not(D.OBAD(o, i))), And(PRE(T), POS(T) >= 0, POS(A) > POS(T),
                   Imp(And(R.before(p, T), self.follow(POS(A), "}")), And(K.OE(p) == z + 1, K.OV(O, p) == self.ROBJ(O, o, i)))))

    def lit(self, T, t):
        """a string literal written behind T (the lemma on strings; a well-formed text is the encoding of its code points: C01)"""
        R = self.R
        J = R.D.SJ(T, t)
        q = POS(T) + 1
        return Imp(And(PRE(J), Not(R.D.SBAD(t))), And(PRE(T), POS(T) >= 0, POS(T) < R.L.N, R.L.CP(POS(T)) == 34, POS(J) > q, POS(J) <= R.L.N, R.L.STRE(q) == POS(J), R.L.STRT(EMPTY, q) == t))

    def indent(self, T, d):
        """the run of white space a line starts with"""
        R = self.R
        if not R.pretty:
            return z3.BoolVal(True)
        run = R.D.ind(T, d).arg(1)                     # (as the serializer's specification says)
        return R.run_stmt(T, run.arg(2))


def lemma_values(pretty, part):
    def run(mod):
        R = RT(mod, pretty)
        Q = Docs(R)
        D, K, L, ex = R.D, R.T, R.L, R.ex
        T = z3.Const("T", TXT)
        v = z3.Const("v", V)
        d = z3.BitVec("d", 16)
        p = z3.Int("p")
        q = POS(T)
        J = D.VAL(T, v, d)
        one = z3.BitVecVal(1, 64)
        zero = z3.BitVecVal(0, 64)
        base = [R.fillok, R.unf(J), R.unf(D.VBAD(v)), R.rows(p), R.unf(L.SKIP(q)), R.unf(K.PE(p)), R.unf(K.PV(p))]
        goal = Q.val(T, v, d, p)
        if part == "scalars":
            R.prove("null is read back", goal, base + [V.is_vnull(v)])
            R.prove("a boolean is read back", goal, base + [V.is_vbool(v)])
            R.prove("an integer value is read back", goal, base + [V.is_vint(v), int_stmt(R, T, V.i(v), p)])
            f = V.f(v)
            R.prove("a float value is read back to its precision", goal, base + [V.is_vflt(v), flt_stmt(R, T, f, p), K.FV(p) == Q.RFLT(f)])
            R.prove("a string value is read back", goal, base + [V.is_vstr(v), Q.lit(T, V.t(v))])
            return harvest(ex, [])
        if part == "literal":
            # from the lemma on strings to a whole literal
            t = z3.Const("t", TXT)
            RENC, rdef = renc(R)
            Z = z3.IntVal(0)
            T1 = PUT(T, ch('"'))
            SJ = D.SJ(T, t)
            S = R.X.STRJ(T1, Z)
            R.prove("a literal is read back", Q.lit(T, t), [SJ == S, PRE(SJ) == PRE(S), POS(SJ) == POS(S), D.SBAD(t) == R.X.SBADJ(Z), str_stmt(R, T1, Z, EMPTY, None, RENC), RENC(EMPTY, Z) == t, Imp(PRE(S), POS(S) <= L.N)])
            return harvest(ex, [])
        ar = part == "array"
        kind, LEN_, items, bad, stmt = ("varr", SLEN, D.ARR, D.ABAD, Q.arr) if ar else ("vobj", OLEN, D.OBJT, D.OBAD, Q.obj)
        cont = V.s(v) if ar else V.o(v)
        opn, cls = "[]" if ar else "{}"
        T1 = puts(T, opn)                              # behind the bracket
        Tn = D.nl(T1)
        A = items(Tn, cont, zero, d + 1)
        nxt = POS(T1)
        END, VALS, acc = (K.AE, K.AV, SEMPTY) if ar else (K.OE, K.OV, OEMPTY)
        for empty in (True, False):
            B0 = T1 if empty else A
            Bn = D.nl(B0)                              # the line of the closing bracket
            Bi = D.ind(Bn, d)
            Be = puts(Bi, cls)
            hy = base + [getattr(V, "is_" + kind)(v), (LEN_(cont) == 0) == empty, Q.indent(Bn, d), R.unf(L.SKIP(POS(B0))), R.unf(L.SKIP(POS(Bn))), R.unf(L.SKIP(POS(Bi)))]
            if empty:
                hy += [R.rows(nxt), R.unf(END(nxt)), R.unf(VALS(acc, nxt)), (Q.rseq if ar else Q.robj)(acc, cont, zero), R.unf(L.SKIP(nxt))]
            else:
                hy += [R.unf(L.SKIP(nxt)), R.unf(L.SKIP(POS(Tn))), stmt(Tn, cont, zero, d + 1, nxt, acc)]
            R.prove("%s %s is read back" % ("an empty" if empty else "a filled", "array" if ar else "object"), goal, hy)
        return harvest(ex, [])
    return run


def lemma_items(pretty, what):
    def run(mod):
        R = RT(mod, pretty)
        Q = Docs(R)
        D, K, L, ex = R.D, R.T, R.L, R.ex
        T = z3.Const("T", TXT)
        d = z3.BitVec("d", 16)
        i = z3.BitVec("i", 64)
        p = z3.Int("p")
        Ti = D.ind(T, d)
        base = [R.fillok, Q.indent(T, d), z3.ULT(i, MAXLEN)]
        if what == "array":
            s, S = z3.Const("s", SEQ), z3.Const("S", SEQ)
            A = D.ARR(T, s, i, d)
            x = SNTH(s, i)
            T1 = D.VAL(Ti, x, d)
            goal = Q.arr(T, s, i, d, p, S)
            elem = [Q.val(Ti, x, d, p)]
            hy = base + [R.unf(A), R.unf(D.ABAD(s, i)), Q.rseq(S, s, i), R.unf(K.AE(p)), R.unf(K.AV(S, p))]
            after = [lambda r: R.unf(D.ARR(r, s, i + 1, d)), lambda S2: Q.rseq(S2, s, i + 1)]
            S2 = SNOC(S, Q.RB(x))
            rest = lambda T2, p2: Q.arr(T2, s, i + 1, d, p2, S2)
            last = i == SLEN(s) - 1
            ARR = lambda r: D.ARR(r, s, i + 1, d)
        else:
            s, S = z3.Const("o", OBJ), z3.Const("O", OBJ)
            A = D.OBJT(T, s, i, d)
            x, k = OVAL(s, i), OKEY(s, i)
            Tk = D.SJ(Ti, k)                              # behind the key
            Tc = puts(Tk, ":")
            Tv = D.colon(Tk)                              # where the value starts
            T1 = D.VAL(Tv, x, d)
            goal = Q.obj(T, s, i, d, p, S)
            pk = POS(Tk)
            pc = POS(Tc)
            elem = [Q.lit(Ti, k), R.rows(p), R.unf(L.SKIP(POS(Ti))), R.rows(pk), R.unf(L.SKIP(pk)), R.unf(L.SKIP(pc)), Q.val(Tv, x, d, pc)]
            if R.pretty:
                elem += [R.run_stmt(Tc, z3.BitVecVal(1, 64)), R.unf(L.SKIP(POS(Tv)))]
            hy = base + [R.unf(A), R.unf(D.OBAD(s, i)), Q.robj(S, s, i), R.unf(K.OE(p)), R.unf(K.OV(S, p))]
            S2 = OINS(S, k, Q.RB(x))
            rest = lambda T2, p2: Q.obj(T2, s, i + 1, d, p2, S2)
            last = i == OLEN(s) - 1
            ARR = lambda r: D.OBJT(r, s, i + 1, d)
        e1 = POS(T1)
        nm = "element" if what == "array" else "member"
        R.prove("the last %s is read back" % nm, goal, hy + elem + [last, R.unf(ARR(T1)), (Q.rseq if what == "array" else Q.robj)(S2, s, i + 1), R.rows(e1)])
        Tc2 = puts(T1, ",")
        T2 = D.nl(Tc2)
        p2 = POS(Tc2)
        R.prove("another %s is read back" % nm, goal, hy + elem + [Not(last), R.rows(e1), R.unf(L.SKIP(e1)), R.unf(L.SKIP(p2)), R.unf(L.SKIP(POS(T2))), rest(T2, p2)])
        return harvest(ex, [])
    return run


def lemma_whole(mod):
    """the document, and dumping it again"""
    R = RT(mod)
    Q = Docs(R)
    D, K, L, ex = R.D, R.T, R.L, R.ex
    v, d0 = z3.Const("v", V), z3.BitVecVal(0, 16)
    X = D.VAL(EMPTY, v, d0)
    Z = z3.IntVal(0)
    E = K.E
    R.prove("the whole text is read as the value", And(K.PE(Z) == L.N, K.PV(Z) == Q.RB(v), K.TOK(L.N) == E["end_of_input"], K.TEND(L.N) >= 0),
            [PRE(X), POS(X) == L.N, POS(EMPTY) == 0, Not(D.VBAD(v)), Q.val(EMPTY, v, d0, Z), R.rows(L.N), R.unf(L.SKIP(L.N))])
    # what is read back: element by element
    s, S, i, j = z3.Const("s", SEQ), z3.Const("S", SEQ), z3.BitVec("i", 64), z3.BitVec("j", 64)
    z = z3.BitVecVal(0, 64)
    inv = lambda S, i, j: And(SLEN(S) == i, Imp(z3.ULT(j, i), SNTH(S, j) == Q.RB(SNTH(s, j))))
    R.prove("elements: none at first", inv(SEMPTY, z, j), [])
    R.prove("elements: one more", inv(SNOC(S, Q.RB(SNTH(s, i))), i + 1, j), [inv(S, i, j), z3.ULT(i, SLEN(s))])
    o, O, k = z3.Const("o", OBJ), z3.Const("O", OBJ), z3.Const("k", TXT)
    oinv = lambda O, i, k: And(OLEN(O) == i, OHAS(O, k) == And(OHAS(o, k), z3.ULT(OFIND(o, k), i)), Imp(OHAS(O, k), OGET(O, k) == Q.RB(OGET(o, k))))
    key = OKEY(o, i)
    R.prove("members: none at first", oinv(OEMPTY, z, k), [])
    R.prove("members: one more", oinv(OINS(O, key, Q.RB(OVAL(o, i))), i + 1, k), [oinv(O, i, k), oinv(O, i, key), z3.ULT(i, OLEN(o)), OFIND(o, key) == i])
    R.prove("members: all of them", Imp(oinv(O, OLEN(o), k), And(OLEN(O) == OLEN(o), OHAS(O, k) == OHAS(o, k), Imp(OHAS(o, k), OGET(O, k) == Q.RB(OGET(o, k))))), [OFIND(o, k) == OFIND(o, k)])
    return harvest(ex, [])


def lemma_again(pretty):
    """dumping what was read back writes the same text, if there are no floats in it"""
    def run(mod):
        R = RT(mod, pretty)
        Q = Docs(R)
        D, ex = R.D, R.ex
        NF = z3.Function("NOFLOAT", V, B)
        T, v, d = z3.Const("T", TXT), z3.Const("v", V), z3.BitVec("d", 16)
        i = z3.BitVec("i", 64)
        z = z3.BitVecVal(0, 64)
        same = lambda T, v, d: Imp(NF(v), D.VAL(T, Q.RB(v), d) == D.VAL(T, v, d))
        s, s2 = z3.Const("s", SEQ), z3.Const("s2", SEQ)           # s2: the elements read back
        eqs = lambda i: And(SLEN(s2) == SLEN(s), Imp(z3.ULT(i, SLEN(s)), And(SNTH(s2, i) == Q.RB(SNTH(s, i)), NF(SNTH(s, i)))))
        sameA = lambda T, i: D.ARR(T, s2, i, d) == D.ARR(T, s, i, d)
        Ti = D.ind(T, d)
        T1 = D.VAL(Ti, SNTH(s, i), d)
        nl = lambda T: D.nl(puts(T, ","))
        R.prove("elements are written alike", sameA(T, i), [eqs(i), R.unf(D.ARR(T, s, i, d)), R.unf(D.ARR(T, s2, i, d)), same(Ti, SNTH(s, i), d), sameA(T1, i + 1), sameA(nl(T1), i + 1)])
        o, o2 = z3.Const("o", OBJ), z3.Const("o2", OBJ)
        # objects with the same keys hold them in the same order (std::map)
        eqo = lambda i: And(OLEN(o2) == OLEN(o), Imp(z3.ULT(i, OLEN(o)), And(OKEY(o2, i) == OKEY(o, i), OVAL(o2, i) == Q.RB(OVAL(o, i)), NF(OVAL(o, i)))))
        sameO = lambda T, i: D.OBJT(T, o2, i, d) == D.OBJT(T, o, i, d)
        Tv = D.colon(D.SJ(Ti, OKEY(o, i)))
        T1 = D.VAL(Tv, OVAL(o, i), d)
        R.prove("members are written alike", sameO(T, i), [eqo(i), R.unf(D.OBJT(T, o, i, d)), R.unf(D.OBJT(T, o2, i, d)), same(Tv, OVAL(o, i), d), sameO(T1, i + 1), sameO(nl(T1), i + 1)])
        Tn = lambda c: D.nl(puts(T, c))
        rs, ro = Q.RSEQ(SEMPTY, V.s(v), z), Q.ROBJ(OEMPTY, V.o(v), z)
        R.prove("the value read back is written alike", same(T, v, d), [NF(v) == And(Not(V.is_vflt(v)), NF(v)), R.unf(D.VAL(T, v, d)), R.unf(D.VAL(T, Q.RB(v), d)), SLEN(rs) == SLEN(V.s(v)), OLEN(ro) == OLEN(V.o(v)),
                D.ARR(Tn("["), rs, z, d + 1) == D.ARR(Tn("["), V.s(v), z, d + 1), D.OBJT(Tn("{"), ro, z, d + 1) == D.OBJT(Tn("{"), V.o(v), z, d + 1)])
        return harvest(ex, [])
    return run


def lemma_tokens(mod):
    """every token ends behind its start, inside the text (what the token-level contracts take for granted: C05)"""
    R = RT(mod)
    L, K, ex = R.L, R.T, R.ex
    th = ex.th
    N = L.N
    R.facts = [N >= 0]
    p = z3.Int("p")

    def rng(f, strict):
        return lambda q: And(Imp(q < 0, f(q) == -1), Imp(And(q >= 0, q <= N), Or(f(q) == -1, And(f(q) > q if strict else f(q) >= q, f(q) <= N))))
    sk, ln, bl, dg, stt = rng(L.SKIP, False), rng(L.LINE, False), rng(L.BLOCK, False), rng(L.DIGEND, False), rng(L.STRE, True)
    # induction over the text that is left; LINE may use SKIP at the same place
    IH = lambda st: lambda t: [Imp(t.arg(0) > p, st(t.arg(0))), Imp(t.arg(0) < 0, st(t.arg(0)))]
    own = {}
    for d, st in ((L.SKIP, sk), (L.LINE, ln), (L.BLOCK, bl), (L.DIGEND, dg), (L.STRE, stt)):
        th.lemma(d, IH(st))
    inr = And(p >= 0, p <= N)
    R.prove("white space ends behind its start", sk(p), [inr, R.unf(L.SKIP(p))])
    R.prove("a line comment ends behind its start", ln(p), [inr, R.unf(L.LINE(p)), sk(p)])
    R.prove("a block comment ends behind its start", bl(p), [inr, R.unf(L.BLOCK(p))])
    R.prove("digits end behind their start", dg(p), [inr, R.unf(L.DIGEND(p))])
    q = L.NX(p)
    _, un = L._hexe(q), None
    hx = [R.unf(L.HEXE(q)), R.unf(L.HEXV(q))]
    n2 = L.NX(L.NX(L.HEXE(q)))
    hx += [R.unf(L.HEXE(n2)), R.unf(L.HEXV(n2))]
    R.prove("a literal ends behind its start", stt(p), [inr, L.STRE(p) == L._str(p, None)[0]] + hx)
    R.prove("nothing is read behind an error", And(sk(p), ln(p), bl(p), dg(p), stt(p)), [p < 0, R.unf(L.SKIP(p)), R.unf(L.LINE(p)), R.unf(L.BLOCK(p)), R.unf(L.DIGEND(p)), L.STRE(p) == L._str(p, None)[0]])
    for d in (L.SKIP, L.LINE, L.BLOCK, L.DIGEND, L.STRE):
        th.defs.pop(d.get_id(), None)
        th.cache.clear()
    for d, st in ((L.SKIP, sk), (L.DIGEND, dg), (L.STRE, stt)):
        th.lemma(d, lambda t, st=st: [st(t.arg(0))])
    s = L.SKIP(p)
    e = K.TEND(p)
    n = L.number(s)
    R.prove("a number ends behind its start", Imp(And(s >= 0, s < N, Not(n["err"])), And(n["end"] > s, n["end"] <= N)), [inr, R.unf(L.DIGEND(s)), R.unf(L.DIGEND(L.NX(s)))])
    R.prove("a token ends behind its start", If(K.TOK(p) == K.E["end_of_input"], Or(e == -1, And(e >= p, e <= N)), Or(e == -1, And(e > p, e <= N))),
            [inr, R.rows(p), Imp(And(s >= 0, s < N, Not(n["err"])), And(n["end"] > s, n["end"] <= N))])
    return harvest(ex, [])


def token_targets():
    from harness import Target
    return [Target("lemma: tokens end behind their start", "json.cpp", lemma_tokens, helper=True)]


def lemma_targets():
    from harness import Target
    J = "json.cpp"
    out = [Target("lemma: white space", J, lemma_space, helper=True), Target("lemma: digits", J, lemma_digits, helper=True), Target("lemma: integers", J, lemma_integer, helper=True),
           Target("lemma: floats", J, lemma_float, helper=True), Target("lemma: the whole text", J, lemma_whole, helper=True)]
    for part in ("end", "short", "control", "plain", "bmp", "pair"):
        out.append(Target("lemma: strings (%s)" % part, J, (lambda mod, part=part: lemma_string(mod, part)), helper=True))
    for pr in (False, True):
        w = "indented" if pr else "compact"
        for part in ("scalars", "array", "object") + (() if pr else ("literal",)):
            out.append(Target("lemma: values (%s) %s" % (part, w), J, lemma_values(pr, part), helper=True))
        for part in ("array", "object"):
            out.append(Target("lemma: items of an %s %s" % (part, w), J, lemma_items(pr, part), helper=True))
        out.append(Target("lemma: dumped again %s" % w, J, lemma_again(pr), helper=True))
    return out
