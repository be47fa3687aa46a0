"""Text of dumped scalars: put_string, put_integer and put_float of the JSON serializer, and the state of its private stream."""
import z3
from llir import Unsupported, PTR, IntTy
from sym import Ptr, NULL, Abs, Fn, UNDEF, State, simp, same, toB, bv, is_conc
from stdlib import *
from stdlib import (TXT, EMPTY, PUT, CATT, LEN, R, str_get, str_set, split, iget, iset, good, vcall, setstate, ios_of, decide, flagbits, HASCH,
                    F_DEC, F_SKIPWS, F_FIXED, F_SCI, F_FLOAT, CHARW, read_text)
from vc import Contract, Case, ANY
from models import new_executor, find
from dumper import Ser, SER, VA, INST, puts, ch, F64, B32, stream_ok, any_format, classic_numbers
from harness import harvest
from lexer import Lex, install_codecs, field, I as INT

DECI = z3.Function("DECI", z3.BitVecSort(64), TXT)                       # the decimal digits of a signed number
FMT = z3.Function("FMT", F64, B32, z3.BitVecSort(64), TXT)               # a float as the stream prints it: flags, precision

def num_locale(ex, st, q):
    ex.oblige(st, z3.BoolVal(classic_numbers(iget(st, q, "loc"))), "numbers are formatted under a classic numeric locale")


def put_text(ex, st, q, t):
    outs = []
    for s, o in vcall(ex, st, iget(st, q, "rdbuf"), "xsputn", [Abs("cstr", t), LEN(t)]):
        if o[0] == "throw":
            setstate(s, q, bad=True)
        outs.append(s)
    return outs


def no_width(ex, st, q):
    if decide(ex, st, iget(st, q, "width"), (0,)) != 0:
        raise Unsupported("field width in a number insertion")


def put_int(ex, st, q, v, bits, unsigned, ct, args):
    """operator<<(integer) under decimal flags: the decimal digits"""
    no_width(ex, st, q)
    v = bv(v, bits)
    if bits < 64:
        v = z3.ZeroExt(64 - bits, v) if unsigned else z3.SignExt(64 - bits, v)
    elif unsigned:
        if ex.prove(st, v >= 0)[0] != "proved":
            raise Unsupported("unsigned 64-bit insertion")
    outs = []
    for s, ok in split(ex, st, good(st, q)):
        if not ok:
            outs.append((s, ("ret", args[0])))
            continue
        outs += [(s2, ("ret", args[0])) for s2 in put_text(ex, s, q, DECI(simp(v)) if z3.is_expr(simp(v)) else DECI(z3.BitVecVal(int(simp(v)), 64)))]
    return outs


def put_double(ex, st, q, v, ct, args):
    """operator<<(double): the text is a function of the number, the flags and the precision"""
    num_locale(ex, st, q)
    no_width(ex, st, q)
    outs = []
    for s, ok in split(ex, st, good(st, q)):
        if not ok:
            outs.append((s, ("ret", args[0])))
            continue
        outs += [(s2, ("ret", args[0])) for s2 in put_text(ex, s, q, FMT(v, z3.simplify(bv(iget(s, q, "flags"), 32)), z3.simplify(bv(iget(s, q, "prec"), 64))))]
    return outs


class Strs:
    """the JSON string literal of a code point sequence"""

    def __init__(self, ex, esc, tag=""):
        self.ex = ex
        self.L = L = Lex(ex, tag)
        self.esc = esc                    # Bool: unicode escaping
        self.STRJ, self.SBADJ = z3.Function("STRJ", TXT, INT, TXT), z3.Function("SBADJ", INT, z3.BoolSort())
        ex.th.define(self.STRJ, lambda T, k: z3.If(k >= L.N, PUT(T, ch('"')), self.STRJ(self.elem(T, L.CP(k)), k + 1)))
        ex.th.define(self.SBADJ, lambda k: z3.If(k >= L.N, L.BAD, z3.Or(self.bad(L.CP(k)), self.SBADJ(k + 1))))

    SHORT = ((9, "t"), (13, "r"), (10, "n"), (8, "b"), (12, "f"), (34, '"'), (92, "\\"))

    def plain(self, c):
        return z3.Not(z3.Or([c == k for k, _ in self.SHORT] + [z3.ULE(c, 0x1F), z3.And(self.esc, z3.UGE(c, 0x7F))]))

    def bad(self, c):
        return z3.And(self.plain(c), z3.Not(self.L.ENCOK(c)))

    @staticmethod
    def hex4(T, c):
        T = puts(T, "\\u")
        for i in (12, 8, 4, 0):
            d = z3.LShR(c, i) & 15
            T = PUT(T, z3.simplify(z3.If(z3.ULT(d, 10), d + 48, d + 55)))
        return T

    def elem(self, T, c):
        r = self.L.ENC(T, c)
        d = c - 0x10000
        pair = self.hex4(self.hex4(T, z3.BitVecVal(0xD800, 32) + z3.LShR(d, 10)), z3.BitVecVal(0xDC00, 32) + (d & 0x3FF))
        r = z3.If(z3.Or(z3.ULE(c, 0x1F), z3.And(self.esc, z3.UGE(c, 0x7F))), z3.If(z3.ULE(c, 0xFFFF), self.hex4(T, c), pair), r)
        for k, e in self.SHORT:
            r = z3.If(c == k, puts(T, "\\" + e), r)
        return r

    def watch(self, ex, src):
        """streams over the string being dumped are decoded as its code points"""
        L = self.L

        def hook(ex, st, p, q, sb, ct):
            if not (isinstance(sb, Ptr) and sb.obj is not None):
                return
            vt = ex.load(st, sb, PTR)
            nm = ex.mod.demg(ex.objs[vt.obj].name.lstrip("@")) if isinstance(vt, Ptr) else ""
            if "fast_string_istreambuf" not in nm:
                return
            m = ex.mod.members("fast_string_istreambuf<%s>" % ct)
            sp = ex.load(st, Ptr(sb.obj, sb.off + field(m, "str_")), PTR)
            idx = Ptr(sb.obj, sb.off + field(m, "index_"))
            if not (isinstance(sp, Ptr) and str_get(ex, st, sp).eq(self.text)):
                raise Unsupported("another string is decoded")
            ex.oblige(st, bv(ex.load(st, idx, IntTy(64)), 64) == 0, "the string is decoded from its first character")
            ex.store_cell(st, idx, 8, UNDEF)

            def check(st, q2):
                if not (same(iget(st, q2, "rdbuf"), sb) and str_get(ex, st, sp).eq(self.text)):
                    raise Unsupported("the decoded string changed")
            L.P[p.obj] = dict(ios=q.off - p.off, check=check)
            st.g[("lexk", p.obj)] = z3.IntVal(0)
            st.g[("lexpos", p.obj)] = None
        ex.on_stream = hook


class ScalarC(Contract):
    """common part: a serializer with an arbitrary state of its stream"""

    def __init__(self, name, S):
        self.name, self.S = "%s<%s,%s>" % (name, S.val, S.tgt), S

    def start(self, ex):
        st = State()
        S = self.S
        o = S.new(st)
        any_format(ex, st, S.q)
        self.T0 = S.T0
        self.fl, self.prec = z3.simplify(bv(iget(st, S.q, "flags"), 32)), bv(iget(st, S.q, "prec"), 64)
        st.g["caught"] = ()
        return st, o

    def bind(self, ex, st, args):
        return True

    def modifies(self, x):
        S = self.S
        return [("g", S.sink), ("g", "caught"), ("g", ("ios", S.q.obj, S.q.off, "fill"))]

    def check_frame(self, ex, st0, t, ctx, c, nm):
        if c.out[0] == "ret":
            Contract.check_frame(self, ex, st0, t, ctx, c, nm)

    def post(self, text):
        S = self.S
        return [("text", lambda s, r: S.text(s) == text(s)), ("the stream is good", lambda s, r: S.good(s)),
                ("class invariant of the stream", lambda s, r: stream_ok(s, S.q)),
                ("float format and precision are unchanged", lambda s, r: z3.And(bv(iget(s, S.q, "flags"), 32) == self.fl, bv(iget(s, S.q, "prec"), 64) == self.prec))]


class StringC(ScalarC):
    def __init__(self, S, X):
        ScalarC.__init__(self, "put_string", S)
        self.X = X

    def setups(self, ex):
        st, o = self.start(ex)
        X, L = self.X, self.X.L
        X.esc_def = simp(self.S.get(st, "unicode_escaping_", 1) != 0)
        st.assume(X.esc == toB(X.esc_def))
        s = ex.alloc(st, "text", 32, "string")
        X.text = z3.Const("content", TXT)
        st.g[("str", s.obj, 0)] = X.text
        st.assume(L.N >= 0)
        yield "", st, [o, s]

    def cases(self, ex, st, x):
        X = self.X
        bad = X.SBADJ(z3.IntVal(0))
        return [Case(bad, ("throw", SER), name="text cannot be decoded or encoded"),
                Case(z3.Not(bad), ("ret", ANY), post=self.post(lambda s: X.STRJ(PUT(self.T0, ch('"')), z3.IntVal(0))), name="written")]

    def hint(self, ex, m):
        L = self.X.L
        ev = lambda x: m.eval(x, model_completion=True)
        try:
            n = min(ev(L.N).as_long(), 40)
            return "cp:" + ",".join("%x" % ev(L.CP(i)).as_long() for i in range(n))
        except Exception:
            return None


def str_pool(X, S, c):
    def pool(ex, st, f, header, M):
        out = []
        fl, prec = c.fl, c.prec
        out.append(("class invariant of the stream", lambda s: stream_ok(s, S.q)))
        out.append(("float format", lambda s: bv(iget(s, S.q, "flags"), 32) == fl))
        out.append(("precision", lambda s: bv(iget(s, S.q, "prec"), 64) == prec))
        out.append(("the stream is good", lambda s: S.good(s)))
        for k in st.g:
            if isinstance(k, tuple) and k[0] == "lexk":
                o, v0 = k[1], st.g[k]
                P = X.L.P[o]
                q = Ptr(o, P["ios"])
                T0 = S.text(st)
                kk = lambda s, k=k: s.g[k] if z3.is_expr(s.g[k]) else z3.IntVal(s.g[k])
                out.append(("position in range", lambda s, kk=kk: z3.And(kk(s) >= 0, kk(s) <= X.L.N)))
                out.append(("source is good", lambda s, q=q: good(s, q)))
                out.append(("written so far", lambda s, kk=kk, v0=v0, T0=T0: X.STRJ(S.text(s), kk(s)) == X.STRJ(T0, v0)))
                out.append(("good so far", lambda s, kk=kk, v0=v0: X.SBADJ(kk(s)) == X.SBADJ(v0)))
        return out
    return pool


def str_measures(X):
    def meas(ex, head):
        out = []
        for k in head.g:
            if isinstance(k, tuple) and k[0] == "lexk":
                out.append(("code points left", lambda s, k=k: X.L.N - s.g[k] if z3.is_expr(s.g[k]) else X.L.N - z3.IntVal(s.g[k])))
        return out
    return meas


def run_string(tgt, val):
    def run(mod):
        ex = new_executor(mod, "", fpmode="fp")
        ex.merge, ex.eager, ex.nocounted = True, True, True
        ex.timeout, ex.cand_timeout = 60000, 40000
        ex.num_locale = num_locale
        X = Strs(ex, z3.Bool("ESC"))
        install_codecs(ex, X.L)
        S = Ser(ex, tgt, val)
        X.watch(ex, val)
        ex.th.lemma(X.L.CP, lambda t: [z3.ULE(t, 0x10FFFF)])
        c = StringC(S, X)
        ex.inv_pool = str_pool(X, S, c)
        ex.measures = str_measures(X)
        fail_contract(ex)
        fn = find(mod, r"^configor::detail::json_serializer<configor::basic_value<configor::%s>, %s>::put_string\(" % (VA[val], tgt))
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)], hint=c.hint)
    return run


FAIL = r"^configor::detail::json_serializer<.*>::fail\("


def fail_contract(ex):
    def h(ex, st, name, args, I):
        return [(st, ("throw", ex.make_exc(st, SER)))]
    ex.add_contract(FAIL, h, "json_serializer::fail() throws a serialization error", trusted=False, front=True)


class FailC(Contract):
    def __init__(self, cls):
        self.name = "fail<%s>" % cls

    def setups(self, ex):
        st = State()
        o = ex.alloc(st, "serializer", None, "serializer", lazy=True)
        s = ex.alloc(st, "message", 32, "string", lazy=True)
        st.g[("str", s.obj, 0)] = z3.Const("message", TXT)
        st.g["caught"] = ()
        yield "", st, [o, s, z3.BitVec("codepoint", 32)]

    def bind(self, ex, st, args):
        return True

    def cases(self, ex, st, x):
        return [Case(True, ("throw", SER), name="throws")]


def run_fail(tgt, val):
    def run(mod):
        ex = new_executor(mod, "")
        fn = find(mod, r"^configor::detail::json_serializer<configor::basic_value<configor::%s>, %s>::fail\(" % (VA[val], tgt))
        FailC("%s,%s" % (val, tgt)).verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


class IntC(ScalarC):
    def setups(self, ex):
        st, o = self.start(ex)
        self.i = z3.BitVec("i", 64)
        yield "", st, [o, self.i]

    def cases(self, ex, st, x):
        return [Case(True, ("ret", ANY), post=self.post(lambda s: CATT(self.T0, DECI(self.i))), name="decimal digits")]

    def hint(self, ex, m):
        return "int:%d" % m.eval(self.i, model_completion=True).as_signed_long()


class FloatC(ScalarC):
    def setups(self, ex):
        st, o = self.start(ex)
        self.f = z3.FP("f", F64)
        yield "", st, [o, self.f]

    def cases(self, ex, st, x):
        f = self.f
        T = self.T0
        bad = z3.Or(z3.fpIsNaN(f), z3.fpIsInf(f))
        lim = z3.FPVal(2.0 ** 63, F64)
        integral = z3.And(z3.fpEQ(z3.fpRoundToIntegral(z3.RTP(), f), z3.fpRoundToIntegral(z3.RTN(), f)), z3.fpLT(z3.fpAbs(f), lim))     # no number lies between
        digits = DECI(z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(64)))
        t = FMT(f, self.fl, self.prec)
        marked = z3.Or(HASCH(t, ch(".")), HASCH(t, ch("e")))
        return [Case(bad, ("throw", SER), name="not finite"),
                Case(z3.And(z3.Not(bad), integral), ("ret", ANY), post=self.post(lambda s: puts(CATT(T, digits), ".0")), name="integral: digits and .0"),
                Case(z3.And(z3.Not(bad), z3.Not(integral), marked), ("ret", ANY), post=self.post(lambda s: CATT(T, t)), name="formatted at the configured precision"),
                Case(z3.And(z3.Not(bad), z3.Not(integral), z3.Not(marked)), ("ret", ANY), post=self.post(lambda s: puts(CATT(T, t), ".0")), name="fraction dropped by the precision: .0 appended")]

    def hint(self, ex, m):
        v = m.eval(z3.fpToIEEEBV(self.f), model_completion=True).as_long()
        return "flt:%016x" % v


def run_number(what, tgt, val):
    def run(mod):
        ex = new_executor(mod, "", fpmode="fp")
        ex.num_locale, ex.put_int, ex.put_double = num_locale, put_int, put_double
        S = Ser(ex, tgt, val)
        c = (IntC if what == "put_integer" else FloatC)(what, S)
        fn = find(mod, r"^configor::detail::json_serializer<configor::basic_value<configor::%s>, %s>::%s\(" % (VA[val], tgt, what))
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)], hint=c.hint)
    return run
