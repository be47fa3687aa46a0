"""The JSON serializer: symbolic serializer objects, the specification of dumped documents and of dumped scalars."""
import re
import z3
from llir import Unsupported, PTR, IntTy, Ty
from sym import Ptr, NULL, Abs, Fn, UNDEF, State, simp, same, toB, bv, is_conc
from stdlib import *
from stdlib import TXT, EMPTY, PUT, PUTN, CATT, LEN, R, str_get, str_set, split, iget, iset, ios_init, vtable_for, CHARW, to32, F_DEC, F_SKIPWS, F_FIXED, F_SCI, F_FLOAT
from vc import Contract, Case, ANY
from models import new_executor, find, mk_sink, mk_ostream
from values import *
from values import Values
from lexer import field
from harness import harvest

SER = "_ZTIN8configor28configor_serialization_errorE"
VA = {"char": "value_tplargs", "wchar_t": "wvalue_tplargs"}
INST = [("char", "char"), ("wchar_t", "wchar_t"), ("wchar_t", "char")]     # (target, source)
B16, B32, B8 = z3.BitVecSort(16), z3.BitVecSort(32), z3.BitVecSort(8)
F64 = z3.Float64()
NL = z3.BitVecVal(10, 32)


BASE_FLAGS = F_DEC | F_SKIPWS


def classic_numbers(loc):
    """are numbers formatted in the classic way under this locale"""
    if isinstance(loc, Abs) and loc.kind == "locale":
        if loc.d[0] == "classic":
            return True
        if loc.d[0] == "combine":
            base, other, cat = loc.d[1:]
            if isinstance(base, tuple):
                base = base[0] if len(base) == 1 else base
            if is_conc(cat) and not int(cat) & 0x2 and base == "classic":      # numeric category
                return True
    return False


def stream_ok(st, q, fl=None, loc=None):
    """class invariant of the serializer's own stream: decimal numbers without padding, classic number format; the float format is free"""
    fl = bv(iget(st, q, "flags"), 32) if fl is None else fl
    c = [fl & ~(F_FIXED | F_SCI) == BASE_FLAGS, (fl & F_FLOAT) != F_FLOAT, bv(iget(st, q, "width"), 64) == 0]
    if not classic_numbers(iget(st, q, "loc")):
        c.append(z3.BoolVal(False))
    return z3.And(c)


def any_format(ex, st, q):
    """an arbitrary state of the serializer's stream within the invariant"""
    fx, sc = z3.BitVec("fixed", 1), z3.BitVec("scientific", 1)
    hi = BASE_FLAGS >> 9
    fl = z3.simplify(z3.Concat(z3.BitVecVal(hi, 23), sc, z3.BitVecVal((BASE_FLAGS >> 3) & 31, 5), fx, z3.BitVecVal(BASE_FLAGS & 3, 2)))
    st.assume((fx & sc) == 0)
    iset(st, q, "flags", fl)
    iset(st, q, "prec", z3.BitVec("precision", 64))
    iset(st, q, "fill", z3.BitVec("osfill", CHARW[iget(st, q, "ct")]))
    iset(st, q, "width", 0)
    iset(st, q, "loc", Abs("locale", "combine", "classic", "of-caller", 0x5))
    st.assume(stream_ok(st, q))


def ch(c):
    return z3.BitVecVal(ord(c), 32)


def cls_of(tgt, val):
    return "json_serializer<configor::basic_value<configor::%s>, %s>" % (VA[val], tgt)


def puts(t, s):
    for c in s:
        t = PUT(t, ch(c))
    return t


WF = z3.Function("WIDTH", B32, B32, B32)      # the product of a depth and a step


def W(a, b):
    return WF(a, b) if a.get_id() < b.get_id() else WF(b, a)


def small(x, n):
    """x as 32 bits if its upper bits beyond 16 are zero"""
    if n <= 16:
        return None
    h = z3.simplify(z3.Extract(n - 1, 16, x))
    return z3.simplify(z3.Extract(31, 0, x) if n > 32 else x if n == 32 else z3.ZeroExt(32 - n, x)) if z3.is_bv_value(h) and h.as_long() == 0 else None


def mulfn(x, y, n):
    """products of two small unknowns are kept symbolic; their theory is the proved lemmas"""
    if n < 32 or z3.is_bv_value(x) or z3.is_bv_value(y):
        return None
    a, b = small(x, n), small(y, n)
    if a is None or b is None:
        return None
    r = W(a, b)
    return r if n == 32 else z3.ZeroExt(n - 32, r)


def install_products(ex):
    ex.mulfn = mulfn

    def lem(t):
        a, b = t.children()
        lim = lambda a, b: z3.Implies(z3.And(z3.ULE(a, 65535), z3.ULE(b, 255)), z3.ULE(t, 65535 * 255))
        return [lim(a, b), lim(b, a), z3.Implies(z3.Or(a == 0, b == 0), t == 0)]
    ex.th.lemma(WF, lem)


def run_products(mod):
    """the lemmas about products, proved for machine multiplication"""
    from sym import Obl
    ex = new_executor(mod, "")
    d, s = z3.BitVec("d", 16), z3.BitVec("s", 8)
    a, b = z3.BitVec("a", 32), z3.BitVec("b", 32)
    m = lambda d: z3.ZeroExt(16, d) * z3.ZeroExt(24, s)
    from harness import harvest
    import time
    for nm, g in (("one level more is one step more", z3.Implies(d != 65535, m(d + 1) == m(d) + z3.ZeroExt(24, s))), ("products are bounded", z3.Implies(z3.And(z3.ULE(a, 65535), z3.ULE(b, 255)), z3.ULE(a * b, 65535 * 255))),
                  ("zero", z3.Implies(z3.Or(a == 0, b == 0), a * b == 0)), ("commutative", a * b == b * a),
                  ("wide products", z3.Implies(z3.And(z3.ULE(a, 65535), z3.ULE(b, 65535)), z3.ZeroExt(32, a * b) == z3.ZeroExt(32, a) * z3.ZeroExt(32, b)))):
        S = z3.Solver()
        S.set("timeout", 120000)
        S.add(z3.Not(g))
        t = time.time()
        r = S.check()
        ex.obls.append(Obl(name="lemma: " + nm, ok=r == z3.unsat, status="proved" if r == z3.unsat else str(r), fn=None, t=time.time() - t, backend="z3", line=0, model=None, trace=()))
    return harvest(ex, [])


class Doc:
    """VAL(T, v, d): T followed by the document of v, whose first line stands at depth d"""

    def __init__(self, ex, pretty):
        self.ex, self.pretty = ex, pretty
        F = z3.Function
        self.VAL, self.ARR, self.OBJT = F("VAL", TXT, V, B16, TXT), F("ARR", TXT, SEQ, B64, B16, TXT), F("OBJT", TXT, OBJ, B64, B16, TXT)
        self.SJ, self.IJ, self.FJ = F("SJ", TXT, TXT, TXT), F("IJ", TXT, B64, TXT), F("FJ", TXT, F64, TXT)
        self.SBAD = F("SBAD", TXT, z3.BoolSort())
        self.VBAD, self.ABAD, self.OBAD = F("VBAD", V, z3.BoolSort()), F("ABAD", SEQ, B64, z3.BoolSort()), F("OBAD", OBJ, B64, z3.BoolSort())
        self.HT = F("HT", V, B32)              # nesting depth
        self.step, self.fill = z3.BitVec("step", 8), z3.BitVec("indent_char", 32)
        VAL, ARR, OBJT, SJ = self.VAL, self.ARR, self.OBJT, self.SJ
        th = ex.th
        If, And, Or, Not = z3.If, z3.And, z3.Or, z3.Not
        one64, one16 = z3.BitVecVal(1, 64), z3.BitVecVal(1, 16)

        def val(T, v, d):
            r = puts(T, "null")
            for nm, t in (("vbool", If(V.b(v), puts(T, "true"), puts(T, "false"))), ("vint", self.IJ(T, V.i(v))), ("vflt", self.FJ(T, V.f(v))), ("vstr", SJ(T, V.t(v))),
                          ("varr", self.close(ARR(self.nl(puts(T, "[")), V.s(v), z3.BitVecVal(0, 64), d + 1), d, "]", SLEN(V.s(v)) == 0, puts(T, "["))),
                          ("vobj", self.close(OBJT(self.nl(puts(T, "{")), V.o(v), z3.BitVecVal(0, 64), d + 1), d, "}", OLEN(V.o(v)) == 0, puts(T, "{")))):
                r = If(getattr(V, "is_" + nm)(v), t, r)
            return r
        th.define(VAL, val)

        def sep(T, last):
            return If(last, T, self.nl(puts(T, ",")))
        th.define(ARR, lambda T, s, i, d: If(z3.UGE(i, SLEN(s)), T, ARR(sep(VAL(self.ind(T, d), SNTH(s, i), d), i == SLEN(s) - 1), s, i + 1, d)))
        th.define(OBJT, lambda T, o, i, d: If(z3.UGE(i, OLEN(o)), T, OBJT(sep(VAL(self.colon(SJ(self.ind(T, d), OKEY(o, i))), OVAL(o, i), d), i == OLEN(o) - 1), o, i + 1, d)))
        th.define(self.VBAD, lambda v: If(V.is_vflt(v), Or(z3.fpIsNaN(V.f(v)), z3.fpIsInf(V.f(v))), If(V.is_vstr(v), self.SBAD(V.t(v)), If(V.is_varr(v), self.ABAD(V.s(v), z3.BitVecVal(0, 64)),
                  If(V.is_vobj(v), self.OBAD(V.o(v), z3.BitVecVal(0, 64)), False)))))
        th.define(self.ABAD, lambda s, i: And(z3.ULT(i, SLEN(s)), Or(self.VBAD(SNTH(s, i)), self.ABAD(s, i + 1))))
        th.define(self.OBAD, lambda o, i: And(z3.ULT(i, OLEN(o)), Or(self.SBAD(OKEY(o, i)), self.VBAD(OVAL(o, i)), self.OBAD(o, i + 1))))
        # the elements of a container are nested less deeply than the container
        th.lemma(SNTH, lambda t: [z3.Implies(z3.ULT(t.arg(1), SLEN(t.arg(0))), z3.ULT(self.HT(t), self.HT(V.varr(t.arg(0)))))])
        th.lemma(OVAL, lambda t: [z3.Implies(z3.ULT(t.arg(1), OLEN(t.arg(0))), z3.ULT(self.HT(t), self.HT(V.vobj(t.arg(0)))))])

    def nl(self, T):
        return PUT(T, NL) if self.pretty else T

    def ind(self, T, d):
        """indentation at depth d"""
        if not self.pretty:
            return T
        n = z3.ZeroExt(32, W(z3.simplify(z3.ZeroExt(16, d)), z3.simplify(z3.ZeroExt(24, self.step))))
        return z3.If(z3.And(self.step != 0, d != 0), PUTN(T, self.fill, n), T)

    def colon(self, T):
        T = puts(T, ":")
        return PUTN(T, self.fill, z3.BitVecVal(1, 64)) if self.pretty else T

    def close(self, T, d, c, empty, T0):
        # an empty container has its brackets on two lines in indented output
        T = z3.If(empty, T0, T) if not z3.is_false(empty) else T
        return puts(self.ind(self.nl(T), d), c)


class Ser:
    """a serializer object in memory"""

    def __init__(self, ex, tgt, val):
        self.ex, self.tgt, self.val = ex, tgt, val
        self.cls = cls_of(tgt, val)
        self.o = None
        self.mem = ex.mod.members(self.cls)
        self.imem = ex.mod.members("indent<%s>" % tgt)
        if self.mem is None or self.imem is None:
            raise Unsupported("no class " + self.cls)
        self.E = ex.mod.enum("token_type")

    def off(self, n):
        return field(self.mem, n)

    def ioff(self, n):
        return field(self.mem, "indent_") + field(self.imem, n)

    def vtab(self):
        mod = self.ex.mod
        vt = [g for g in mod.globals if g.startswith("_ZTV") and mod.demg(g).endswith("configor::detail::" + self.cls)]
        if not vt:
            raise Unsupported("no vtable of " + self.cls)
        return Ptr(self.ex.global_ptr(vt[0]).obj, 16)

    def new(self, st, pretty=None, esc=None, D=None):
        """a serializer between two tokens; its stream writes to an arbitrary sink"""
        ex, tgt = self.ex, self.tgt
        o = ex.alloc(st, "serializer", ex.mod.class_size(self.cls), "serializer")
        self.o = o
        ex.store(st, Ptr(o.obj, 0), PTR, self.vtab())
        sink, T = mk_sink(ex, st, tgt)
        self.sink, self.T0 = ("snk", sink.obj), T
        off = self.off("os_")
        ex.store(st, Ptr(o.obj, off), PTR, vtable_for(ex, 8))
        self.q = Ptr(o.obj, off + 8)
        ios_init(ex, st, self.q, sink, tgt)
        ex.store(st, Ptr(o.obj, self.off("err_handler_")), PTR, Abs("unk", z3.BitVec("err_handler", 64)))
        ex.store(st, Ptr(o.obj, self.off("source_decoder_")), PTR, Abs("decoder"))
        ex.store(st, Ptr(o.obj, self.off("target_encoder_")), PTR, Abs("encoder"))
        self.put(st, "pretty_print_", 1, z3.BitVec("pretty", 8) if pretty is None else int(pretty))
        if pretty is None:
            st.assume(z3.ULE(z3.BitVec("pretty", 8), 1))
        self.put(st, "object_or_array_began_", 1, z3.BitVec("began", 8))
        st.assume(z3.ULE(z3.BitVec("began", 8), 1))
        self.put(st, "unicode_escaping_", 1, z3.BitVec("escaping", 8) if esc is None else int(esc))
        st.assume(z3.ULE(z3.BitVec("escaping", 8), 1))
        self.put(st, "last_token_", 4, z3.BitVec("last", 32))
        st.assume(z3.ULE(z3.BitVec("last", 32), max(self.E.values())))
        w = CHARW[tgt]
        self.fillc = z3.BitVec("fillc", w)
        self.step, self.depth = z3.BitVec("step", 8), z3.BitVec("depth", 16)
        self.iput(st, "step_", 1, self.step)
        self.iput(st, "depth_", 2, self.depth)
        self.iput(st, "indent_char_", w // 8, self.fillc)
        st.assume(self.fillc != 0)
        if D:
            D.fill = z3.simplify(z3.ZeroExt(32 - w, self.fillc)) if w < 32 else self.fillc
            D.step = self.step
        t, n = z3.Const("indents", TXT), z3.BitVec("indent_len", 64)
        self.ist = (o.obj, self.ioff("indent_string_"))
        st.g[("str",) + self.ist] = t
        st.g[("strrep",) + self.ist] = (z3.ZeroExt(32 - w, self.fillc) if w < 32 else self.fillc, n)
        st.assume(self.indent_ok(st))
        return o

    def attach(self, st, o):
        """the serializer at o, however it was made"""
        ex = self.ex
        self.o = o
        self.q = Ptr(o.obj, self.off("os_") + 8)
        if ("ios", self.q.obj, self.q.off, "rdbuf") not in st.g:
            raise Unsupported("stream of the serializer is not initialised")
        sb = iget(st, self.q, "rdbuf")
        if isinstance(sb, Ptr) and ("snk", sb.obj) in st.g:
            self.sink = ("snk", sb.obj)
        else:
            self.sink = self.strbuf(st, sb)
        self.ist = (o.obj, self.ioff("indent_string_"))
        self.fillc = bv(ex.load(st, Ptr(o.obj, self.ioff("indent_char_")), IntTy(CHARW[self.tgt])), CHARW[self.tgt])
        self.step = self.iget(st, "step_", 1)
        self.depth = self.iget(st, "depth_", 2)

    def strbuf(self, st, sb):
        """the string behind a fast_string_ostreambuf (it appends what it is given: C17)"""
        ex = self.ex
        vt = ex.load(st, sb, PTR) if isinstance(sb, Ptr) and sb.obj is not None else None
        nm = ex.objs[vt.obj].name if isinstance(vt, Ptr) else ""
        if "fast_string_ostreambuf" not in ex.mod.demg(nm.lstrip("@")):
            raise Unsupported("output buffer %r %r" % (sb, nm))
        m = ex.mod.members("fast_string_ostreambuf<%s>" % self.tgt)
        p = ex.load(st, Ptr(sb.obj, sb.off + field(m, "str_")), PTR)
        k = ("str", p.obj, p.off)
        if k not in st.g:
            raise Unsupported("string of the output buffer")
        return k

    def put(self, st, n, sz, v):
        self.ex.store_cell(st, Ptr(self.o.obj, self.off(n)), sz, v)

    def iput(self, st, n, sz, v):
        self.ex.store_cell(st, Ptr(self.o.obj, self.ioff(n)), sz, v)

    def get(self, st, n, sz):
        return bv(self.ex.load(st, Ptr(self.o.obj, self.off(n)), IntTy(8 * sz)), 8 * sz)

    def iget(self, st, n, sz):
        return bv(self.ex.load(st, Ptr(self.o.obj, self.ioff(n)), IntTy(8 * sz)), 8 * sz)

    def text(self, st):
        return st.g[self.sink]

    def width(self, d):
        return W(z3.simplify(z3.ZeroExt(16, d)), z3.simplify(z3.ZeroExt(24, self.step)))

    def width_lemmas(self, ex, st):
        """one level more is one step more (a theorem about products, proved by lemma())"""
        d, one = self.depth, z3.BitVecVal(1, 16)
        st.assume(z3.Implies(d != 65535, self.width(d + 1) == self.width(d) + z3.ZeroExt(24, self.step)))

    def indent_ok(self, st, d=None):
        """class invariant of indent: the string is a run of indent characters, long enough for the present depth"""
        r = self.rep(st)
        if r is None:
            return z3.BoolVal(False)
        w = CHARW[self.tgt]
        c = z3.ZeroExt(32 - w, self.fillc) if w < 32 else self.fillc
        n = bv(r[1], 64)
        need = z3.ZeroExt(32, self.width(self.iget(st, "depth_", 2) if d is None else d))
        t = st.g[("str",) + self.ist]
        return z3.And(bv(r[0], 32) == c, (z3.BitVecVal(0, 64) if t.eq(EMPTY) else LEN(t)) == n, z3.ULE(need, n), z3.ULE(z3.ZeroExt(56, self.step) * 2, n), z3.ULT(n, z3.BitVecVal(1 << 40, 64)))

    def rep(self, st):
        """(character, length) of the indentation string if it is a run of one character"""
        r = st.g.get(("strrep",) + self.ist)
        if r is None and st.g.get(("str",) + self.ist) is not None and st.g[("str",) + self.ist].eq(EMPTY):
            w = CHARW[self.tgt]
            return (z3.ZeroExt(32 - w, self.fillc) if w < 32 else self.fillc, z3.BitVecVal(0, 64))
        return r

    def good(self, st):
        return z3.And([z3.Not(toB(iget(st, self.q, f))) for f in ("eof", "fail", "bad")])

    def colon(self, st):
        return self.get(st, "last_token_", 4) == z3.BitVecVal(self.E["name_separator"], 32)

    def began(self, st):
        return self.get(st, "object_or_array_began_", 1) != 0


def havoc_fill(ex, s, q):
    iset(s, q, "fill", ex.fresh("fill", CHARW[iget(s, q, "ct")]))


def wreck(ex, s, q):
    """an exception leaves the serializer's stream in any state"""
    havoc_fill(ex, s, q)
    for f in ("eof", "fail", "bad"):
        iset(s, q, f, ex.fresh(f, "bool"))
    for f, n in (("flags", 32), ("width", 64), ("prec", 64)):
        iset(s, q, f, ex.fresh(f, n))


class DumpC(Contract):
    """do_dump(v): appends the document of v at the present depth"""

    def __init__(self, D, S):
        self.D, self.S = D, S
        self.name = "do_dump<%s,%s>" % (S.val, S.tgt)
        self.extra = None          # further facts about the serializer a caller has to establish

    def setups(self, ex):
        st = State()
        o = self.S.new(st, pretty=self.D.pretty, D=self.D)
        any_format(ex, st, self.S.q)
        v = z3.Const("v", V)
        c = ex.values.new(st, v, "value")
        self.v = v
        st.g["caught"] = ()
        self.S.width_lemmas(ex, st)
        yield "indented" if self.D.pretty else "compact", st, [o, c]

    def bind(self, ex, st, args):
        o, c = args
        if not isinstance(o, Ptr):
            raise Unsupported("do_dump of %r" % (o,))
        if self.S.o is None:
            self.S.attach(st, o)
        if o.obj != self.S.o.obj:
            raise Unsupported("do_dump of another serializer")
        S, D = self.S, self.D
        v = ex.values.rep(st, c)
        d = S.iget(st, "depth_", 2)
        T = S.text(st)
        T1 = simp(z3.If(S.began(st), D.nl(T), T))
        T2 = simp(z3.If(S.colon(st), T1, D.ind(T1, d)))
        rep = S.rep(st)
        if rep is None:
            raise Unsupported("indentation string")
        return dict(v=v, d=d, T=T2, rep=rep, fl=bv(iget(st, S.q, "flags"), 32), prec=bv(iget(st, S.q, "prec"), 64))

    def requires(self, ex, st, x):
        S = self.S
        return [("a flag is 0 or 1", z3.ULE(S.get(st, "object_or_array_began_", 1), 1)), ("class invariant of the indentation", S.indent_ok(st)), ("the stream is good", S.good(st)), ("class invariant of the stream", stream_ok(st, S.q)), ("not nested too deeply", z3.And(z3.ULE(self.D.HT(x["v"]), 65535), z3.ULE(z3.ZeroExt(16, x["d"]) + self.D.HT(x["v"]), 65535)))] + (self.extra(ex, st) if self.extra else [])

    def measure(self, ex, st, x):
        return self.D.HT(x["v"])

    def modifies(self, x):
        S = self.S
        ob = S.o.obj
        return [("g", S.sink), ("c", ob, S.off("object_or_array_began_"), 1), ("c", ob, S.off("last_token_"), 4), ("c", ob, S.ioff("depth_"), 2), ("g", ("str",) + S.ist), ("g", ("strrep",) + S.ist), ("g", "caught")] + \
            [("g", ("ios", ob, S.q.off, f)) for f in ("eof", "fail", "bad", "fill")]

    def check_frame(self, ex, st0, t, ctx, c, nm):
        if c.out[0] == "ret":        # a serializer that threw is not used again
            Contract.check_frame(self, ex, st0, t, ctx, c, nm)

    def apply_case(self, ex, s, x, c):
        S = self.S
        s.g[S.sink] = ex.fresh("partial", TXT)
        S.put(s, "last_token_", 4, ex.fresh("last", 32))
        s.g[("str",) + S.ist] = ex.fresh("indents", TXT)
        s.g[("strrep",) + S.ist] = (x["rep"][0], ex.fresh("indent_len", 64))
        havoc_fill(ex, s, S.q)
        if c.out[0] == "ret":
            S.put(s, "object_or_array_began_", 1, 0)
            S.iput(s, "depth_", 2, simp(x["d"]))
            s.g[S.sink] = simp(self.D.VAL(x["T"], x["v"], x["d"]))
        else:
            S.put(s, "object_or_array_began_", 1, ex.fresh("began", 8))
            S.iput(s, "depth_", 2, ex.fresh("depth", 16))
            wreck(ex, s, S.q)

    def cases(self, ex, st, x):
        S, D = self.S, self.D
        bad = D.VBAD(x["v"])
        post = [("document", lambda s, r: S.text(s) == D.VAL(x["T"], x["v"], x["d"])),
                ("depth is restored", lambda s, r: S.iget(s, "depth_", 2) == x["d"]),
                ("no line break is pending", lambda s, r: z3.Not(S.began(s))),
                ("the last token is not a colon", lambda s, r: z3.Not(S.colon(s))),
                ("class invariant of the indentation", lambda s, r: S.indent_ok(s, x["d"])),
                ("class invariant of the stream", lambda s, r: stream_ok(s, S.q)),
                ("float format and precision are unchanged", lambda s, r: z3.And(bv(iget(s, S.q, "flags"), 32) == x["fl"], bv(iget(s, S.q, "prec"), 64) == x["prec"])),
                ("the stream is good", lambda s, r: S.good(s))]
        return [Case(bad, ("throw", SER), name="undumpable content"), Case(z3.Not(bad), ("ret", ANY), post=post, name="dumped")]


def doc_pool(D, S, cv):
    def pool(ex, st, f, header, M):
        out = []
        v = cv.v
        d = S.iget(st, "depth_", 2)
        TT = lambda s: z3.If(S.began(s), D.nl(S.text(s)), S.text(s))
        T0 = TT(st)
        out.append(("indentation", lambda s: S.indent_ok(s, d)))
        out.append(("the stream is good", lambda s: S.good(s)))
        fl, prec = bv(iget(st, S.q, "flags"), 32), bv(iget(st, S.q, "prec"), 64)
        out.append(("class invariant of the stream", lambda s: stream_ok(s, S.q)))
        out.append(("float format", lambda s: bv(iget(s, S.q, "flags"), 32) == fl))
        out.append(("precision", lambda s: bv(iget(s, S.q, "prec"), 64) == prec))
        out.append(("depth", lambda s: S.iget(s, "depth_", 2) == d))
        out.append(("not after a colon", lambda s: z3.Not(S.colon(s))))
        out.append(("a flag is 0 or 1", lambda s: z3.ULE(S.get(s, "object_or_array_began_", 1), 1)))
        out.append(("no pending line break", lambda s: z3.Not(S.began(s))))

        def pos(s, c):
            """position held by a cell: a count or an iterator"""
            w = ex.get_cells(s, c[0]).get(c[1], (0, None))
            x = w[1]
            if isinstance(x, Abs) and x.kind in ("vit", "mit"):
                return c64(x.d[1])
            if w[0] == 8 and (isinstance(x, int) and not isinstance(x, bool) or z3.is_bv(x) and x.size() == 64):
                return bv(x, 64)
            return None
        cells = [m[1:] for m in M if m[0] == "cell" and pos(st, m[1:]) is not None]
        for c in cells:
            p = lambda s, c=c: pos(s, c)
            nm = "%s+%d" % (ex.objs[c[0]].name, c[1])
            out.append(("line break pending at first only (%s)" % nm, lambda s, p=p: S.began(s) == (p(s) == 0)))
            for kind, cont, ln, TX, BD in (("array", simp(V.s(v)), SLEN, D.ARR, D.ABAD), ("object", simp(V.o(v)), OLEN, D.OBJT, D.OBAD)):
                if not ex.feasible(st, IS[kind](v)):
                    continue
                out.append(("%s in range (%s)" % (nm, kind), lambda s, p=p, cont=cont, ln=ln: z3.ULE(p(s), ln(cont))))
                out.append(("%s written so far (%s)" % (kind, nm), lambda s, p=p, cont=cont, TX=TX: TX(TT(s), cont, p(s), d) == TX(T0, cont, p(st), d)))
                out.append(("%s good so far (%s)" % (kind, nm), lambda s, p=p, cont=cont, BD=BD: BD(cont, p(s)) == BD(cont, p(st))))
            for e in cells:
                if e > c:
                    out.append(("%s and %s+%d agree" % (nm, ex.objs[e[0]].name, e[1]), lambda s, c=c, e=e: pos(s, c) == pos(s, e)))
        return out
    return pool


def doc_executor(mod, tgt, val, pretty):
    ex = new_executor(mod, "", fpmode="fp")
    ex.merge, ex.eager, ex.nocounted = True, True, True
    ex.rounds = 3
    ex.keep_kinds = ("value",)
    Values(ex)
    install_products(ex)
    D = Doc(ex, pretty)
    S = Ser(ex, tgt, val)
    base = r"^configor::detail::(?:json|basic)_serializer<configor::basic_value<.*>, \w+>::"

    def scalar(what, text, bad):
        def h(ex, st, name, args, I):
            if not (isinstance(args[0], Ptr) and args[0].obj == S.o.obj):
                raise Unsupported(name)
            ex.oblige(st, S.good(st), "the stream is good when %s is called" % what)
            ex.oblige(st, stream_ok(st, S.q), "class invariant of the stream when %s is called" % what)
            x = str_get(ex, st, args[1]) if what == "put_string" else args[1]
            if isinstance(x, int):
                x = z3.BitVecVal(x, 64)
            outs = []
            for s, b in split(ex, st, bad(x)):
                if b:
                    s.g[S.sink] = ex.fresh("partial", TXT)
                    wreck(ex, s, S.q)
                    outs.append((s, ("throw", ex.make_exc(s, SER))))
                else:
                    havoc_fill(ex, s, S.q)
                    s.g[S.sink] = text(S.text(s), x)
                    outs.append((s, ("ret", None)))
            return outs
        ex.add_contract(base + what + r"\(", h, what + "() (C07, C09)", trusted=False, front=True)
    scalar("put_string", D.SJ, D.SBAD)
    scalar("put_integer", D.IJ, lambda x: False)
    scalar("put_float", D.FJ, lambda x: z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))
    c = DumpC(D, S)
    ex.inv_pool = doc_pool(D, S, c)
    ex.add_contract(base + r"do_dump\(", c.handler, "do_dump() by its own contract (recursion)", trusted=False, front=True)
    return ex, D, S, c


class WholeC(Contract):
    """a dump through the public interface; kind: plain | indent | wrap | str | escape | precision; facts: what the serializer must be set to"""

    def __init__(self, D, S, kind, facts=()):
        self.D, self.S, self.kind, self.facts = D, S, kind, facts
        self.name = "dump (%s)<%s,%s>" % (kind, S.val, S.tgt)

    def extra(self, ex, st):
        """the settings of the serializer that dumps the value"""
        S, out = self.S, []
        q = S.q
        if "codecs" in self.facts:
            for fld, op, ct in (("source_decoder_", "decode", S.val), ("target_encoder_", "encode", S.tgt)):
                f = ex.load(st, Ptr(S.o.obj, S.off(fld)), PTR)
                ok = isinstance(f, Fn) and re.match(r"configor::encoding::auto_utf<%s>::%s\(" % (ct, op), ex.mod.dem(f.name))
                out.append(("the default encoding is used (%s)" % op, z3.BoolVal(bool(ok))))
        if "escaping" in self.facts:
            on = S.get(st, "unicode_escaping_", 1) != 0
            out.append(("unicode escaping as requested", on == (toB(simp(self.on != 0)) if self.kind == "escape" else z3.BoolVal(False))))
        if "format" in self.facts:
            want_p, want_f = (z3.SignExt(32, self.p), self.pf) if self.kind == "precision" else (self.prec0, self.flags0)
            want_f = want_f & F_FLOAT
            out.append(("precision as requested", bv(iget(st, q, "prec"), 64) == want_p))
            out.append(("float format as requested (hexadecimal means none)", bv(iget(st, q, "flags"), 32) & F_FLOAT == z3.If(want_f == F_FLOAT, z3.BitVecVal(0, 32), want_f)))
        return out

    def setups(self, ex):
        D, S, kind = self.D, self.S, self.kind
        tgt = S.tgt
        w = CHARW[tgt]
        st = State()
        v = z3.Const("v", V)
        self.v = v
        c = ex.values.new(st, v, "value")
        st.assume(z3.ULE(D.HT(v), 65535))
        st.g["caught"] = ()
        step, fillc = z3.BitVec("step", 8), z3.BitVec("fillc", w)
        st.assume(fillc != 0)
        args = []
        self.q = None
        self.prec0, self.flags0 = z3.BitVecVal(6, 64), z3.BitVecVal(0, 32)
        if kind != "str":
            self.prec0, self.flags0 = z3.BitVec("precision", 64), z3.BitVec("flags", 32)
            sink, T = mk_sink(ex, st, tgt)
            self.sink, self.T0 = ("snk", sink.obj), T
            os_, q = mk_ostream(ex, st, tgt, sink)
            self.q, self.os = q, os_
            wd = z3.BitVec("width", 64)
            iset(st, q, "width", wd)
            iset(st, q, "prec", z3.BitVec("precision", 64))
            iset(st, q, "flags", z3.BitVec("flags", 32))
            osfill = fillc if kind not in ("indent",) else z3.BitVec("osfill", w)
            st.assume(osfill != 0)
            iset(st, q, "fill", osfill)
            iset(st, q, "loc", Abs("locale", "of-caller"))
            st.assume(z3.BitVec("precision", 64) == z3.SignExt(32, z3.Extract(31, 0, z3.BitVec("precision", 64))))
            if kind not in ("indent",):
                st.assume(wd == 0 if not D.pretty else z3.And(wd > 0, wd <= 255))
                step = z3.simplify(z3.Extract(7, 0, wd))
            args.append(os_)
        else:
            out = ex.alloc(st, "result", 32, "string")
            args.append(out)
            self.sink, self.T0 = ("str", out.obj, 0), EMPTY
        args.append(c)
        if kind in ("indent", "str"):
            args += [step, fillc]
            st.assume((step != 0) == D.pretty)
        if kind == "escape":
            self.on = z3.BitVec("on", 8)
            st.assume(z3.ULE(self.on, 1))
            args.append(simp(self.on == 1))
        if kind == "precision":
            self.p, self.pf = z3.BitVec("p", 32), z3.BitVec("pf", 32)
            args += [self.p, self.pf]
        D.step, D.fill = step, z3.simplify(z3.ZeroExt(32 - w, fillc)) if w < 32 else fillc
        S.o = None
        yield "indented" if D.pretty else "compact", st, args

    def bind(self, ex, st, args):
        return True

    def modifies(self, x):
        r = [("g", self.sink), ("g", "caught")]
        if self.q is not None:
            r.append(("g", ("ios", self.q.obj, self.q.off, "width")))
        return r

    def frame_objs(self, x):
        return () if self.kind != "str" else (self.sink[1],)

    def cases(self, ex, st, x):
        D = self.D
        bad = D.VBAD(self.v)
        return [Case(bad, ("throw", SER), name="undumpable content"),
                Case(z3.Not(bad), ("ret", ANY), post=[("document", lambda s, r: s.g[self.sink] == D.VAL(self.T0, self.v, z3.BitVecVal(0, 16)))] +
                     ([("the width is cleared", lambda s, r: bv(iget(s, self.q, "width"), 64) == 0)] if self.q is not None else []), name="dumped")]


def whole_executor(mod, tgt, val, pretty):
    ex, D, S, c = doc_executor(mod, tgt, val, pretty)
    ex.inv_pool = None
    ex.nocounted = False
    return ex, D, S, c


def run_whole(kind, tgt, val, pretty, facts=()):
    def run(mod):
        ex, D, S, c = whole_executor(mod, tgt, val, pretty)
        pre = "x" if tgt != val else "w" if tgt == "wchar_t" else ""
        fn = find(mod, r"^drv::%sdump_%s(\[abi:cxx11\])?\(" % (pre, kind))
        w = WholeC(D, S, kind, facts)
        c.extra = w.extra
        w.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


def wholes(kinds, facts=(), insts=INST, pretty=(False, True)):
    from harness import Target
    return [Target("public dump %s<%s,%s> %s" % (k, v, t, "indented" if p else "compact"), "api.cpp", run_whole(k, t, v, p, facts)) for t, v in insts for k in kinds for p in pretty]
