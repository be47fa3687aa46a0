"""C17: output sinks."""
from bufs import *
import stdlib
from harness import Target, harvest

PROP = "C17"
CH = ("char", "wchar_t")
CLS = {"string": "detail::fast_string_ostreambuf<%s>", "adapter": "basic_oadapterstream<%s>::streambuf"}
METHODS = ("overflow", "xsputn")


def mk_oadapter(ex, st, T):
    vt = ex.alloc(st, "adapter vtable", 64, "advt")
    for i in range(8):
        ex.store(st, Ptr(vt.obj, 8 * i), PTR, Abs("adfn", i))
    a = ex.alloc(st, "adapter", 64, "adapter")
    ex.store(st, Ptr(a.obj, 0), PTR, Ptr(vt.obj, 0))
    ex.adap[a.obj] = ("out", None)
    st.g[("adp", a.obj)] = T
    return a


class SinkC(Contract):
    """one virtual writing function of a sink holding any text"""

    def __init__(self, kind, ct, method):
        self.kind, self.ct, self.method = kind, ct, method
        self.cls = CLS[kind] % ct
        self.name = "%s::%s" % (self.cls.replace("detail::", ""), method)

    def initial(self, ex, st, T):
        if self.kind == "string":
            a = ex.alloc(st, "target", 32, "string")
            st.g[("str", a.obj, 0)] = T
        else:
            a = mk_oadapter(ex, st, T)
        self.a = a
        st, o, self.ctor = construct(ex, st, self.cls, a, 128)
        self.o = o
        return st, o

    def text(self, s):
        return s.g[("str", self.a.obj, 0)] if self.kind == "string" else s.g[("adp", self.a.obj)]

    def setups(self, ex):
        st = State()
        T = z3.Const("T", TXT)
        st, o = self.initial(ex, st, T)
        if self.method == "overflow":
            c = z3.BitVec("c", 32)
            self.c = c
            yield "", st, [o, c]
        else:
            s = ex.alloc(st, "characters", None, "chars")
            t, num = z3.Const("t", TXT), z3.BitVec("num", 64)
            ex.chars[s.obj] = (t, num)
            st.assume(z3.And(num >= 0, z3.ULT(num, K(BIG))))
            ex.bounds = [("num", num)]
            self.s, self.t, self.num = s, t, num
            yield "", st, [o, s, num]

    def bind(self, ex, st, args):
        return dict(T=self.text(st))

    def frame_objs(self, x):
        return (self.o.obj, self.a.obj)

    def cases(self, ex, st, x):
        T, ct = x["T"], self.ct
        if self.method == "overflow":
            c = self.c
            w = CHARW[ct]
            ch = c if w == 32 else z3.ZeroExt(32 - w, z3.Extract(w - 1, 0, c))
            return [Case(c != eofv(ct), ("ret", ANY), post=[("the character is appended", lambda s, r: self.text(s) == PUT(T, ch)),
                                                           ("success", lambda s, r: bv(r, 32) != eofv(ct))], name="character"),
                    Case(c == eofv(ct), ("ret", ANY), post=[("nothing is appended", lambda s, r: self.text(s) == T)], name="eof")]
        num = self.num
        return [Case(True, ("ret", num), post=[("the block is appended", lambda s, r: self.text(s) == PUTS(T, self.t, K(0), num))], name="block")]


def run_sink(kind, ct, method):
    def run(mod):
        ex = buf_executor(mod, ct)
        base_contracts(ex)
        ex.sources = lambda st: []
        c = SinkC(kind, ct, method)
        fn = find(mod, r"^configor::%s::%s\(" % (re.escape(c.cls), method))
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn), mod.dem(c.ctor)])
    return run


class BlockWriteC(Contract):
    """default block write of an output adapter: num calls of write(), in order"""

    def __init__(self, ct):
        self.ct = ct
        self.name = "basic_oadapter<%s>::write(s, num)" % ct

    def setups(self, ex):
        st = State()
        T = z3.Const("T", TXT)
        self.a = a = mk_oadapter(ex, st, T)
        s = ex.alloc(st, "characters", None, "chars")
        t, num = z3.Const("t", TXT), z3.BitVec("num", 64)
        ex.chars[s.obj] = (t, num)
        st.assume(z3.ULT(num, K(BIG)))
        ex.bounds = [("num", num)]
        self.t, self.num = t, num
        ex.sources = lambda s: []
        yield "", st, [a, s, num]

    def bind(self, ex, st, args):
        return dict(T=st.g[("adp", self.a.obj)])

    def frame_objs(self, x):
        return (self.a.obj,)

    def cases(self, ex, st, x):
        k = ("adp", self.a.obj)
        return [Case(True, ("ret", ANY), post=[("every character in order", lambda s, r: s.g[k] == PUTS(x["T"], self.t, K(0), self.num))], name="block")]


def run_block(ct):
    def run(mod):
        ex = buf_executor(mod, ct)
        c = BlockWriteC(ct)
        fn = find(mod, r"^configor::basic_oadapter<%s>::write\(%s const\*, unsigned long\)" % (ct, ct))
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


def mk_os(ex, st, ct, sb):
    """the caller's stream with any formatting state"""
    p = ex.alloc(st, "os", 272, "stream", lazy=True)
    ex.store(st, p, PTR, stdlib.vtable_for(ex, 8))
    q = Ptr(p.obj, 8)
    stdlib.ios_init(ex, st, q, sb, ct)
    stdlib.iset(st, q, "width", z3.BitVec("width", 64))
    stdlib.iset(st, q, "prec", z3.BitVec("precision", 64))
    stdlib.iset(st, q, "fill", z3.BitVec("fillch", 32))
    return p, q


def run_entry(ct, form, ret):
    def run(mod):
        ex = buf_executor(mod, ct)
        base_contracts(ex)
        ctor_contracts(ex, [CLS["string"] % ct])
        c = EntryC("%sdump<%s>(%s)" % ("string " if ret else "", ct, form or "value"), ct, form, ret, "out")
        ex.sources = lambda st: []

        def dump(ex, st, name, args, I):
            os_, v, od, on = args[:4]
            q = stdlib.ios_of(ex, st, os_)
            st.g["calls"] += 1
            sb = stdlib.iget(st, q, "rdbuf")
            tgt = st.g.get(("over", sb.obj, sb.off)) if isinstance(sb, Ptr) else None
            ex.oblige(st, tgt is not None and ("str", tgt.obj, tgt.off) in st.g, "the stream writes to a string")
            ex.oblige(st, toB(stdlib.good(st, q)), "the stream is good")
            ex.oblige(st, z3.And(*[toB(same(stdlib.iget(st, q, k), v_)) for k, v_ in (("width", 0), ("prec", 6))]), "default formatting")
            ex.oblige(st, same(v, c.c), "the caller's value is dumped")
            ex.oblige(st, z3.And(toB(same(od, c.opts)), bv(on, 64) == c.nopts), "the options are passed on")
            outs = []
            if tgt is None:
                return R(st)
            for s, bad in split(ex, st, c.thrown):
                str_set(ex, s, tgt, CATT(str_get(ex, s, tgt), c.D))
                outs.append((s, ("throw", ex.make_exc(s, "_ZTISt9exception")) if bad else ("ret", None)))
            return outs
        OS = r"std::(?:w?ostream|basic_ostream<\w+>)&"
        P = r"^(?:void|std::__cxx11::basic_string<\w+>) configor::detail::serializable<.*>::dump<%s>\(" % ct
        ex.add_contract(P + OS, dump, "dump(stream, value, options)", trusted=False, front=True)
        fn = find(mod, P + (r"std::__cxx11::basic_string<%s>&" % ct if form else r"configor::basic_value<configor::\w+> const&"))
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


def run_stream(ct):
    def run(mod):
        ex = buf_executor(mod, ct)
        base_contracts(ex)
        ex.sources = lambda st: []
        c = StreamEntryC("dump<%s>(stream, value)" % ct, ct, "out")
        ex.mk_stream = lambda st, sb: mk_os(ex, st, ct, sb)
        stream_entry(ex, c, r"^configor::encoding::auto_utf<char>::decode\(", r"^configor::encoding::auto_utf<%s>::encode\(" % ct)
        fn = find(mod, r"^void configor::detail::serializable<.*>::dump<%s>\(std::(?:w?ostream|basic_ostream<\w+>)&" % ct)
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


def targets(tier):
    out = []
    for ct in CH:
        for k in CLS:
            for m in METHODS:
                out.append(Target("%s<%s>::%s" % (k, ct, m), "streams.cpp", run_sink(k, ct, m)))
        out.append(Target("oadapter<%s>::write" % ct, "streams.cpp", run_block(ct)))
        out.append(Target("dump<%s>(stream)" % ct, "streams.cpp", run_stream(ct)))
        out.append(Target("dump<%s>(string)" % ct, "streams.cpp", run_entry(ct, "string", False)))
        out.append(Target("string dump<%s>(value)" % ct, "streams.cpp", run_entry(ct, None, True)))
    return out


REPLAY = ("streams.cpp", ["sinks"])
REPLAY_BOUND = "native cross-check: random mixes of single and block writes to every kind of sink (4000 per kind and character type), and dumps of a set of values with five option lists to every kind of sink"
ASSUMPTIONS = ["An output adapter is user code: a block write it overrides equals as many single writes.",
               "std::basic_ostream calls overflow and xsputn of its buffer as the C++ standard says (put, write, operator<<).",
               "Blocks are shorter than 2^61 characters."]
