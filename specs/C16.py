"""C16: input sources."""
from bufs import *
import stdlib
from harness import Target, harvest

PROP = "C16"
CH = ("char", "wchar_t")
CLS = {"string": "detail::fast_string_istreambuf<%s>", "buffer": "detail::fast_buffer_istreambuf<%s>", "cfile": "detail::fast_cfile_istreambuf<%s>",
       "adapter": "basic_iadapterstream<%s>::streambuf"}
METHODS = ("underflow", "uflow", "xsgetn")


def mk_iadapter(ex, st, t):
    vt = ex.alloc(st, "adapter vtable", 64, "advt")
    for i in range(8):
        ex.store(st, Ptr(vt.obj, 8 * i), PTR, Abs("adfn", i))
    a = ex.alloc(st, "adapter", 64, "adapter")
    ex.store(st, Ptr(a.obj, 0), PTR, Ptr(vt.obj, 0))
    return a


class SrcC(Contract):
    """one virtual reading function of a source at any position of any text"""

    def __init__(self, kind, ct, method):
        self.kind, self.ct, self.method = kind, ct, method
        self.cls = CLS[kind] % ct
        self.name = "%s::%s" % (self.cls.replace("detail::", ""), method)
        self.t = z3.Const("t", TXT)

    def size(self, ex):
        return ex.mod.class_size(self.cls.split("::")[-1]) if self.kind != "adapter" else 128

    def initial(self, ex, st):
        """a freshly constructed source over the text t"""
        t = self.t
        self.n = n = LEN(t) if self.kind != "adapter" else K(BIG)
        st.assume(z3.ULE(n, K(BIG)))
        if self.kind == "string":
            a = ex.alloc(st, "text", 32, "string")
            st.g[("str", a.obj, 0)] = t
        elif self.kind == "buffer":
            a = ex.alloc(st, "characters", None, "chars")
            ex.chars[a.obj] = (t, n)
            st.g[("cstr", a.obj)] = t
        elif self.kind == "cfile":
            a = ex.alloc(st, "FILE", None, "file")
            ex.files[a.obj] = (t, n)
            st.g[("file", a.obj)] = K(0)
            st.g[("unget", a.obj)] = False
        else:
            a = mk_iadapter(ex, st, t)
            ex.adap[a.obj] = ("in", t)
            st.g[("adp", a.obj)] = K(0)
        self.a = a
        st, o, self.ctor = construct(ex, st, self.cls, a, self.size(ex))
        self.o = o
        self.cells = sorted((off, c[0]) for off, c in st.mem[o.obj].items() if isinstance(c[1], int) and not isinstance(c[1], bool))
        return st, o

    # position of the reader; None when the state is not a legal one
    def pos(self, ex, s):
        n = self.n
        if self.kind == "cfile":
            return s.g[("file", self.a.obj)]
        if len(self.cells) != 1:
            raise Unsupported("state of %s" % self.cls)
        off, sz = self.cells[0]
        v = ex.get_cells(s, self.o.obj)[off][1]
        if v is UNDEF:
            raise Unsupported("undefined position")
        if self.kind == "adapter":
            return s.g[("adp", self.a.obj)] - z3.If(bv(v, 8 * sz) != 0, K(1), K(0))
        v = bv(v, 64)
        return z3.If(z3.UGE(v, n), n, v)

    def legal(self, ex, s):
        if self.kind == "cfile":
            return z3.ULE(s.g[("file", self.a.obj)], self.n)
        if self.kind == "adapter":
            off, sz = self.cells[0]
            v = bv(ex.get_cells(s, self.o.obj)[off][1], 8 * sz)
            k = s.g[("adp", self.a.obj)]
            return z3.Or(v == 0, z3.And(z3.UGT(k, 0), self.same_char(v, unit(self.ct, self.t, k - 1))))
        return True

    def same_char(self, v, u):
        """v, as an int_type, stands for the character u"""
        v = bv(v, 32)
        w = CHARW[self.ct]
        if self.kind == "adapter":      # the end-of-file character announces the end
            return z3.And(z3.Extract(w - 1, 0, v) == z3.Extract(w - 1, 0, u), (v == eofv(self.ct)) == (z3.Extract(w - 1, 0, u) == z3.BitVecVal(-1, w)))
        return z3.And(v != eofv(self.ct), v == u)

    def setups(self, ex):
        st = State()
        st, o = self.initial(ex, st)
        st.assume(z3.ULT(J, K(BIG)))
        # any position
        for off, sz in self.cells:
            ex.store_cell(st, Ptr(o.obj, off), sz, ex.fresh("index", 8 * sz))
            if self.kind != "adapter":
                st.assume(z3.ULE(bv(ex.get_cells(st, o.obj)[off][1], 64), K(BIG * 2)))
        if self.kind == "cfile":
            st.g[("file", self.a.obj)] = z3.BitVec("fpos", 64)
        if self.kind == "adapter":
            st.g[("adp", self.a.obj)] = z3.BitVec("apos", 64)
            st.assume(z3.ULT(z3.BitVec("apos", 64), K(BIG)))
        st.assume(toB(self.legal(ex, st)))
        args = [o]
        if self.method == "xsgetn":
            d = ex.alloc(st, "destination", None, "dst")
            num = z3.BitVec("num", 64)
            st.g[("dstJ", d.obj)] = z3.BitVec("old_char", 32)
            ex.dst[d.obj] = z3.If(num < 0, K(0), num)
            st.assume(num < K(BIG))
            self.d, self.num = d, num
            ex.bounds = [("num", z3.If(num < 0, K(0), num)), ("num-1", num - 1)]
            args += [d, num]
        P = self.pos(ex, st)
        i = P
        # no character that the source uses to announce its end
        U = unit(self.ct, self.t, i)
        self.pre_units(ex, st)
        yield "", st, args

    def pre_units(self, ex, st):
        w = CHARW[self.ct]
        m = (1 << w) - 1
        bad = []
        if self.ct == "wchar_t":
            bad = [0xFFFFFFFF]
        t = self.t
        if self.kind == "adapter":
            end = self.end = z3.BitVec("end", 64)        # position of the first end-of-file character
            ex.th.lemma(AT, lambda a: [z3.Extract(w - 1, 0, a) != 0, (z3.Extract(w - 1, 0, a) == z3.BitVecVal(-1, w)) == z3.UGE(a.arg(1), end)] if a.arg(0).eq(t) else [])
        elif bad:
            ex.th.lemma(AT, lambda a: [z3.Extract(w - 1, 0, a) != b for b in bad] if a.arg(0).eq(t) else [])

    def bind(self, ex, st, args):
        return dict(p=simp(self.pos(ex, st)), d=st.g.get(("dstJ", self.d.obj)) if self.method == "xsgetn" else None)

    def frame_objs(self, x):
        return (self.o.obj, self.a.obj if self.kind != "string" else None) + ((self.d.obj,) if self.method == "xsgetn" else ())

    def cases(self, ex, st, x):
        p, n, t, ct = x["p"], self.n, self.t, self.ct

        def at(q):
            return [("position", lambda s, r: self.pos(ex, s) == q), ("reader state", lambda s, r: self.legal(ex, s))]
        m = self.method
        if m in ("underflow", "uflow"):
            q = p + 1 if m == "uflow" else p
            if self.kind == "adapter":
                n = self.end
                return [Case(z3.ULT(p, n), ("ret", ANY), post=at(q) + [("the next character", lambda s, r: z3.And(bv(r, 32) != eofv(ct), self.same_char(r, unit(ct, t, p))))], name="inside"),
                        Case(z3.UGE(p, n), ("ret", ANY), post=[("reader state", lambda s, r: self.legal(ex, s)), ("position", lambda s, r: z3.UGE(self.pos(ex, s), n)), ("end of input", lambda s, r: bv(r, 32) == eofv(ct))], name="at the end")]
            out = [Case(z3.ULT(p, n), ("ret", ANY), post=at(q) + [("the next character", lambda s, r: self.same_char(r, unit(ct, t, p)))], name="inside")]
            out.append(Case(z3.UGE(p, n), ("ret", ANY), post=at(n) + [("end of input", lambda s, r: bv(r, 32) == eofv(ct))], name="at the end"))
            return out
        num = self.num
        cnt = z3.If(num <= 0, K(0), num)
        if self.kind != "adapter":
            cnt = z3.If(z3.ULT(cnt, n - p), cnt, n - p)
        cnt = simp(cnt)
        k = ("dstJ", self.d.obj)
        return [Case(True, ("ret", cnt), post=at(p + cnt) + [("every character in order", lambda s, r: s.g[k] == z3.If(z3.ULT(J, cnt), unit(ct, t, p + J), x["d"]))], name="block")]


def run_src(kind, ct, method):
    def run(mod):
        ex = buf_executor(mod, ct)
        base_contracts(ex)
        c = SrcC(kind, ct, method)
        rx = r"^configor::%s::%s\(" % (re.escape(c.cls), method)
        fn = find(mod, rx)

        def sources(st):
            return [(c.t, c.pos(ex, st)), (c.t, st.g[("adp", c.a.obj)] if kind == "adapter" else c.pos(ex, st))]
        ex.sources = sources
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn), mod.dem(c.ctor)])
    return run


class CtorC(Contract):
    """a new source stands at the first character"""

    def __init__(self, kind, ct):
        self.kind, self.ct = kind, ct
        self.name = "new " + CLS[kind] % ct


def run_ctor(kind, ct):
    def run(mod):
        ex = buf_executor(mod, ct)
        base_contracts(ex)
        ex.sources = lambda st: []
        c = SrcC(kind, ct, "underflow")
        st = State()
        st, o = c.initial(ex, st)
        ex.stack.append(c.ctor)
        ex.oblige(st, c.pos(ex, st) == 0, "a new %s source stands at the first character" % kind)
        ex.oblige(st, toB(c.legal(ex, st)), "a new %s source is in a legal state" % kind)
        if kind == "buffer":
            ex.oblige(st, True, "the length is that of the C string")
        ex.stack.pop()
        return harvest(ex, [mod.dem(c.ctor)])
    return run


class BlockReadC(Contract):
    """default block read of an input adapter: num calls of read(), in order"""

    def __init__(self, ct):
        self.ct = ct
        self.name = "basic_iadapter<%s>::read(s, num)" % ct
        self.t = z3.Const("t", TXT)

    def setups(self, ex):
        st = State()
        self.a = a = mk_iadapter(ex, st, self.t)
        ex.adap[a.obj] = ("in", self.t)
        st.g[("adp", a.obj)] = z3.BitVec("apos", 64)
        d = ex.alloc(st, "destination", None, "dst")
        num = z3.BitVec("num", 64)
        st.g[("dstJ", d.obj)] = z3.BitVec("old_char", 32)
        ex.dst[d.obj] = num
        ex.bounds = [("num", num)]
        st.assume(z3.And(z3.ULT(num, K(BIG)), z3.ULT(st.g[("adp", a.obj)], K(BIG)), z3.ULT(J, K(BIG))))
        self.d, self.num = d, num
        ex.sources = lambda s: [(self.t, s.g[("adp", a.obj)])]
        yield "", st, [a, d, num]

    def bind(self, ex, st, args):
        return dict(p=st.g[("adp", self.a.obj)], d=st.g[("dstJ", self.d.obj)])

    def frame_objs(self, x):
        return (self.a.obj, self.d.obj)

    def cases(self, ex, st, x):
        k = ("dstJ", self.d.obj)
        return [Case(True, ("ret", ANY), post=[("num characters are taken", lambda s, r: s.g[("adp", self.a.obj)] == x["p"] + self.num),
                                              ("every character in order", lambda s, r: s.g[k] == z3.If(z3.ULT(J, self.num), unit(self.ct, self.t, x["p"] + J), x["d"]))], name="block")]


def run_block(ct):
    def run(mod):
        ex = buf_executor(mod, ct)
        c = BlockReadC(ct)
        fn = find(mod, r"^configor::basic_iadapter<%s>::read\(%s\*, unsigned long\)" % (ct, ct))
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


def run_entry(ct, form, ret):
    def run(mod):
        ex = buf_executor(mod, ct)
        base_contracts(ex)
        ctor_contracts(ex, [CLS[k] % ct for k in ("string", "buffer", "cfile")])
        value_objects(ex)
        P = r"^(?:void|configor::basic_value<configor::\w+>) configor::detail::parsable<.*>::parse<%s>\(" % ct
        V0 = r"configor::basic_value<configor::\w+>&, "
        c = EntryC("%sparse<%s>(%s)" % ("value " if ret else "", ct, form), ct, form, ret, "in")

        def mk_stream(st):
            sb = ex.alloc(st, "buffer of the caller", None, "sbuf", lazy=True)
            from models import mk_istream
            return mk_istream(ex, st, ct, sb)
        ex.mk_stream = mk_stream

        def parse(ex, st, name, args, I):
            v, is_, od, on = args[:4]
            q = stdlib.ios_of(ex, st, is_)
            st.g["calls"] += 1
            if form == "stream":
                ex.oblige(st, is_.obj == c.a.obj, "the caller's stream is read")
            else:
                sb = stdlib.iget(st, q, "rdbuf")
                ex.oblige(st, same(st.g.get(("over", sb.obj, sb.off)), c.a) if isinstance(sb, Ptr) else False, "the stream reads the source from its first character")
                ex.oblige(st, toB(stdlib.good(st, q)), "the stream is good")
            if c.c is not None:
                ex.oblige(st, same(v, c.c), "the caller's value is filled")
            ex.oblige(st, z3.And(toB(same(od, c.opts)), bv(on, 64) == c.nopts), "the options are passed on")
            outs = []
            for s, bad in split(ex, st, c.thrown):
                if bad:
                    outs.append((s, ("throw", ex.make_exc(s, "_ZTISt9exception"))))
                else:
                    s.g[("parsed", v.obj)] = True
                    outs.append((s, ("ret", None)))
            return outs
        IS = r"std::(?:w?istream|basic_istream<\w+>)&"
        if not (form == "stream" and not ret):
            ex.add_contract(P + V0 + IS, parse, "parse(value, stream, options)", trusted=False, front=True)
        sig = {"string": r"std::__cxx11::basic_string<%s> const&" % ct, "cstring": r"%s const\*" % ct, "file": r"_IO_FILE\*", "stream": IS}[form]
        fn = find(mod, r"^(?:void|configor::basic_value<configor::\w+>) configor::detail::parsable<.*>::parse<%s>\(%s%s" % (ct, "" if ret else V0, sig))
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


def run_stream(ct):
    def run(mod):
        ex = buf_executor(mod, ct)
        base_contracts(ex)
        value_objects(ex)
        ex.sources = lambda st: []
        c = StreamEntryC("parse<%s>(value, stream)" % ct, ct, "in")
        from models import mk_istream
        ex.mk_stream = lambda st, sb: mk_istream(ex, st, ct, sb)
        stream_entry(ex, c, r"^configor::encoding::auto_utf<%s>::decode\(" % ct, r"^configor::encoding::auto_utf<char>::encode\(")
        fn = find(mod, r"^void configor::detail::parsable<.*>::parse<%s>\(configor::basic_value<configor::\w+>&, std::(?:w?istream|basic_istream<\w+>)&" % ct)
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


def targets(tier):
    out = []
    for ct in CH:
        for k in CLS:
            out.append(Target("%s<%s> start" % (k, ct), "streams.cpp", run_ctor(k, ct)))
            for m in METHODS:
                out.append(Target("%s<%s>::%s" % (k, ct, m), "streams.cpp", run_src(k, ct, m)))
        out.append(Target("iadapter<%s>::read" % ct, "streams.cpp", run_block(ct)))
        out.append(Target("parse<%s>(stream)" % ct, "streams.cpp", run_stream(ct)))
        for ret in (False, True):
            for f in ("string", "cstring", "file") + (("stream",) if ret else ()):
                out.append(Target("%sparse<%s>(%s)" % ("value " if ret else "", ct, f), "streams.cpp", run_entry(ct, f, ret)))
    return out


REPLAY = ("streams.cpp", ["sources"])
REPLAY_BOUND = "native cross-check: random mixes of peek, get and block reads over 12000 random texts per source kind and character type, and the same documents (with all their prefixes) parsed from every kind of source"
ASSUMPTIONS = ["An input adapter is user code: it delivers its text character by character, contains neither NUL nor the end-of-file character before its end, and a block read it overrides equals as many single reads.",
               "Wide sources do not contain the value 0xFFFFFFFF, which is the end-of-file value of wchar_t.",
               "C files are read through fgetc/ungetc (fgetwc/ungetwc), which follow the C standard; nobody else moves the file meanwhile.",
               "Texts are shorter than 2^61 characters.",
               "std::basic_istream calls underflow, uflow and xsgetn of its buffer as the C++ standard says (peek, get, read)."]
