"""Trusted contracts of the C++ standard library and runtime functions the headers call.

Every contract that is used in a run is listed in the evidence.  Streams are modelled at the std::basic_ios level
(state bits, width, fill, flags, precision, buffer); all character I/O goes through the virtual streambuf interface, so
a streambuf defined in /repo is executed from its own code."""
import re
import z3
from llir import Unsupported, IntTy, PTR, size_of
from sym import Ptr, NULL, Fn, Abs, UNDEF, simp, same, toB, bv, is_conc, mask, sgn

BV64 = z3.BitVecSort(64)
BV32 = z3.BitVecSort(32)
TXT = z3.DeclareSort("TXT")
EMPTY = z3.Const("EMPTY", TXT)
PUT = z3.Function("PUT", TXT, BV32, TXT)          # append one character
PUTN = z3.Function("PUTN", TXT, BV32, BV64, TXT)  # append n copies of a character
CATT = z3.Function("CAT", TXT, TXT, TXT)          # append a text
LEN = z3.Function("LEN", TXT, BV64)
AT = z3.Function("AT", TXT, BV64, BV32)
DECI = z3.Function("DECI", TXT, z3.BitVecSort(64), TXT)   # append decimal rendering of a signed 64-bit integer

EOFBIT, FAILBIT, BADBIT = 2, 4, 1
# libstdc++ fmtflags
F_DEC, F_HEX, F_OCT = 2, 8, 64
F_FIXED, F_SCI = 4, 256
F_SHOWBASE, F_SHOWPOINT, F_SHOWPOS, F_SKIPWS, F_UPPER = 512, 1024, 2048, 4096, 16384
F_LEFT, F_INTERNAL, F_RIGHT = 32, 16, 128
F_BASEFIELD = F_DEC | F_HEX | F_OCT
F_ADJ = F_LEFT | F_RIGHT | F_INTERNAL
F_FLOAT = F_FIXED | F_SCI

CHARW = {"char": 8, "wchar_t": 32, "char16_t": 16, "char32_t": 32}


def R(st, v=None):
    return [(st, ("ret", v))]


def charty(dem):
    m = re.search(r"basic_(?:istream|ostream|ios|streambuf|string|iostream)<(char16_t|char32_t|wchar_t|char)\b", dem)
    if m:
        return m.group(1)
    m = re.search(r"std::__cxx11::basic_string<(char16_t|char32_t|wchar_t|char)\b", dem)
    if m:
        return m.group(1)
    if re.search(r"std::(istream|ostream|ios|streambuf)\b", dem):
        return "char"
    if re.search(r"std::w(istream|ostream|ios|streambuf)\b", dem):
        return "wchar_t"
    raise Unsupported("character type of " + dem)


# ------------------------------------------------------------------ streams: helpers
def vtable_for(ex, vboff):
    key = "$vt%d" % vboff
    if key not in ex.gobj:
        o = ex.new_obj("vtable(vbase %d)" % vboff, 400, "global", const=True)
        ex.gobj[key] = o
        ex.gmem[o] = {0: (8, mask(vboff, 64))}
    return Ptr(ex.gobj[key], 24)


def ios_of(ex, st, p):
    """address of the basic_ios virtual base of an istream/ostream"""
    if ("ios", p.obj, p.off, "rdbuf") in st.g:
        return p
    vp = ex.load(st, p, PTR)
    if isinstance(vp, Ptr) and vp.obj is not None:
        vb = ex.load(st, Ptr(vp.obj, vp.off - 24), IntTy(64))
        if is_conc(vb):
            q = Ptr(p.obj, p.off + sgn(int(vb), 64))
            if ("ios", q.obj, q.off, "rdbuf") in st.g:
                return q
            lz = getattr(ex, "lazy_ios", None)
            if lz and lz(ex, st, q):
                return q
    raise Unsupported("stream object is not initialised: %r" % (p,))


def iget(st, q, f):
    return st.g[("ios", q.obj, q.off, f)]


def iset(st, q, f, v):
    st.g[("ios", q.obj, q.off, f)] = v


def ios_init(ex, st, q, sb, ct):
    isnull = isinstance(sb, Ptr) and sb.obj is None
    iset(st, q, "eof", False)
    iset(st, q, "fail", False)
    iset(st, q, "bad", isnull)
    iset(st, q, "rdbuf", sb)
    iset(st, q, "width", 0)
    iset(st, q, "prec", 6)
    iset(st, q, "flags", F_SKIPWS | F_DEC)
    iset(st, q, "fill", 32)
    iset(st, q, "loc", Abs("locale", "global"))
    iset(st, q, "ct", ct)


def decide(ex, st, v, cands):
    """the constant v equals under the path condition, if it is one of cands"""
    v = simp(v)
    if is_conc(v):
        return int(v)
    for c in cands:
        if ex.prove(st, v == z3.BitVecVal(c, v.size()))[0] == "proved":
            return c
    return None


def flagbits(ex, st, fl, m, cands):
    """the bits of the stream flags under mask m"""
    if is_conc(fl):
        return int(fl) & m
    return decide(ex, st, bv(fl, 32) & m, cands)


def Or_(*xs):
    xs = [simp(x) for x in xs]
    if any(x is True for x in xs):
        return True
    xs = [x for x in xs if x is not False]
    if not xs:
        return False
    return simp(z3.Or(xs)) if len(xs) > 1 else xs[0]


def And_(*xs):
    xs = [simp(x) for x in xs]
    if any(x is False for x in xs):
        return False
    xs = [x for x in xs if x is not True]
    if not xs:
        return True
    return simp(z3.And(xs)) if len(xs) > 1 else xs[0]


def Not_(x):
    x = simp(x)
    if isinstance(x, bool):
        return not x
    return simp(z3.Not(x))


def good(st, q):
    return Not_(Or_(iget(st, q, "eof"), iget(st, q, "fail"), iget(st, q, "bad")))


def setstate(st, q, eof=False, fail=False, bad=False):
    for nm, v in (("eof", eof), ("fail", fail), ("bad", bad)):
        if v is not False:
            iset(st, q, nm, Or_(iget(st, q, nm), v))


def split(ex, st, cond):
    """-> [(state, bool)]"""
    cond = simp(cond)
    if isinstance(cond, (bool, int)):
        return [(st, bool(cond))]
    out = []
    a = ex.feasible(st, cond)
    b = ex.feasible(st, z3.Not(cond))
    if a and b:
        s2 = st.copy()
        s2.assume(z3.Not(cond))
        st.assume(cond)
        return [(st, True), (s2, False)]
    if a:
        st.assume(cond)
        return [(st, True)]
    if b:
        st.assume(z3.Not(cond))
        return [(st, False)]
    st.infeasible = True
    return []


SLOT = {"xsgetn": 8, "underflow": 9, "uflow": 10, "pbackfail": 11, "xsputn": 12, "overflow": 13}


def vcall(ex, st, sb, slot, args):
    """call a virtual function of a streambuf"""
    if isinstance(sb, Abs):
        h = ex.abs_cmp.get(("sbuf", sb.kind))
        if h:
            return h(ex, st, sb, slot, args)
        raise Unsupported("streambuf call on %r" % sb)
    k = st.g.get(("sbufkind", sb.obj, sb.off))
    if k is not None:
        return ex.abs_cmp[("sbuf", k)](ex, st, sb, slot, args)
    vp = ex.load(st, sb, PTR)
    if isinstance(vp, Abs) or vp is UNDEF:
        raise Unsupported("streambuf without vtable")
    fn = ex.load(st, Ptr(vp.obj, vp.off + 8 * SLOT[slot]), PTR)
    if not isinstance(fn, Fn):
        raise Unsupported("virtual %s not resolved: %r" % (slot, fn))
    return ex.call(st, fn.name, [sb] + args)


def int_bits(ct):
    return 16 if ct == "char16_t" else 32


def eofval(ct):
    return 0xFFFF if ct == "char16_t" else 0xFFFFFFFF


def to_int(v, ct):
    w = CHARW[ct]
    n = int_bits(ct)
    if is_conc(v):
        return mask(int(v), w)
    return v if w == n else simp(z3.ZeroExt(n - w, v))


def is_eof(ex, c, ct):
    return ex.icmp("eq", c, eofval(ct), IntTy(int_bits(ct)))


# abstract input buffer: units U(pos), pos < LEN ; positions are 64-bit
def src_kind(ex, st, sb, slot, args):
    """contract of an arbitrary well-behaved input streambuf: hands out its units in order, then end-of-file"""
    o = sb.obj
    U, n, ct = ex.src[o]
    pos = st.g[("src", o)]
    p = bv(pos, 64)
    outs = []
    if slot in ("underflow", "uflow"):
        for s, inb in split(ex, st, z3.ULT(p, n)):
            if inb:
                if slot == "uflow":
                    s.g[("src", o)] = simp(p + 1)
                outs.append((s, ("ret", to_int(U(p), ct))))
            else:
                outs.append((s, ("ret", eofval(ct))))
        return outs
    raise Unsupported("abstract source: " + slot)


def to32(v, ct):
    """character as the 32-bit unit stored in texts"""
    w = CHARW[ct]
    if is_conc(v):
        return z3.BitVecVal(mask(int(v), w), 32)
    if v.size() > w:
        v = z3.Extract(w - 1, 0, v)
    return v if v.size() == 32 else simp(z3.ZeroExt(32 - v.size(), v))


def snk_kind(ex, st, sb, slot, args):
    """contract of an arbitrary well-behaved output streambuf: appends every character it is given"""
    o = sb.obj
    ct = ex.snk[o]
    key = ("snk", o)
    if slot == "overflow":
        c = args[0]
        st.g[key] = PUT(st.g[key], to32(c, ct))
        return R(st, c)
    if slot == "xsputn":
        s, n = args
        t = read_text(ex, st, s, n, ct, st.g[key])
        st.g[key] = t
        return R(st, n)
    raise Unsupported("abstract sink: " + slot)


def read_text(ex, st, p, n, ct, base):
    """base followed by the n characters at p"""
    w = CHARW[ct] // 8
    if isinstance(p, Abs) and p.kind == "cstr":
        t, rep = p.d[0], (p.d[1] if len(p.d) > 1 else None)
        if rep is not None:       # a run of one repeated character, at least rep long
            ex.oblige(st, z3.ULE(bv(n, 64), bv(p.d[2], 64)), "write stays inside the character array")
            return PUTN(base, rep, bv(n, 64))
        if same(bv(n, 64), LEN(t)) or ex.prove(st, bv(n, 64) == LEN(t))[0] == "proved":
            return t if base.eq(EMPTY) else CATT(base, t)
        raise Unsupported("partial text write")
    if not is_conc(n):
        raise Unsupported("write of symbolic length")
    n = int(n)
    if n > 4096:
        raise Unsupported("huge constant write")
    t = base
    for i in range(n):
        v = ex.load(st, Ptr(p.obj, p.off + i * w), IntTy(8 * w))
        if v is UNDEF:
            raise Unsupported("writing undefined characters")
        t = PUT(t, to32(v, ct))
    return t


def cstr_text(ex, st, p, ct):
    """(characters, ) of a NUL-terminated array"""
    w = CHARW[ct] // 8
    out = []
    i = 0
    while True:
        v = ex.load(st, Ptr(p.obj, p.off + i * w), IntTy(8 * w))
        if v is UNDEF or not is_conc(v):
            raise Unsupported("C string is not constant")
        if v == 0:
            return out
        out.append(int(v))
        i += 1


def sputc(ex, st, q, ch, ct):
    """-> [(st, ok)]"""
    sb = iget(st, q, "rdbuf")
    outs = []
    for s, o in vcall(ex, st, sb, "overflow", [to_int(ch, ct)]):
        if o[0] == "throw":
            outs.append((s, o))
            continue
        for s2, e in split(ex, s, is_eof(ex, o[1], ct)):
            if e:
                setstate(s2, q, bad=True)
            outs.append((s2, ("ret", not e)))
    return outs


# -------------------------------------------------------------------- registration
def register(ex):
    A = ex.add_contract

    def fn(rx, label=None):
        def deco(h):
            A(rx, h, label or h.__name__)
            return h
        return deco

    ex.src, ex.snk = getattr(ex, "src", {}), getattr(ex, "snk", {})
    ex.abs_cmp[("sbuf", "SRC")] = src_kind
    ex.abs_cmp[("sbuf", "SNK")] = snk_kind

    # ---------------- runtime
    @fn(r"^operator new(\[\])?\(unsigned long\)$", "operator new (allocation succeeds)")
    def op_new(ex, st, name, args, I):
        n = args[0]
        p = ex.alloc(st, "new", int(n) if is_conc(n) else None, "heap")
        st.g[("heap", p.obj)] = True
        return R(st, p)

    @fn(r"^operator delete(\[\])?\(void\*(, unsigned long)?\)$", "operator delete")
    def op_del(ex, st, name, args, I):
        p = args[0]
        if isinstance(p, Ptr) and p.obj is None:
            return R(st)
        if isinstance(p, Abs):
            raise Unsupported("delete of %r" % (p,))
        if p.obj in st.freed:
            ex.fail(st, "double free of %s" % ex.objs[p.obj].name)
        if ex.objs[p.obj].kind not in ("heap", "payload"):
            ex.fail(st, "free of non-heap object %s" % ex.objs[p.obj].name)
        st.freed = st.freed | {p.obj}
        return R(st)

    @fn(r"^__cxa_allocate_exception$", "__cxa_allocate_exception")
    def cxa_alloc(ex, st, name, args, I):
        return R(st, ex.alloc(st, "exception", None, "exc"))

    @fn(r"^__cxa_free_exception$", "__cxa_free_exception")
    def cxa_free(ex, st, name, args, I):
        return R(st)

    @fn(r"^__cxa_throw$", "__cxa_throw")
    def cxa_throw(ex, st, name, args, I):
        st.g[("exc", args[0].obj)] = ex.ti_name(args[1])
        return [(st, ("throw", args[0]))]

    @fn(r"^__cxa_begin_catch$", "__cxa_begin_catch")
    def begin_catch(ex, st, name, args, I):
        st.g["caught"] = st.g.get("caught", ()) + (args[0].obj,)
        return R(st, args[0])

    @fn(r"^__cxa_end_catch$", "__cxa_end_catch")
    def end_catch(ex, st, name, args, I):
        st.g["caught"] = st.g.get("caught", ())[:-1]
        return R(st)

    @fn(r"^__cxa_rethrow$", "__cxa_rethrow")
    def rethrow(ex, st, name, args, I):
        c = st.g.get("caught", ())
        if not c:
            ex.fail(st, "rethrow without a caught exception")
            return []
        st.g["rethrown"] = True
        return [(st, ("throw", Ptr(c[-1], 0)))]

    @fn(r"^std::current_exception\(\)$", "std::current_exception")
    def cur_exc(ex, st, name, args, I):
        c = st.g.get("caught", ())
        v = Abs("eptr", c[-1] if c else None)
        ex.store(st, args[0], PTR, v)
        return R(st)

    @fn(r"^std::rethrow_exception\(", "std::rethrow_exception")
    def reth(ex, st, name, args, I):
        v = ex.load(st, args[0], PTR) if isinstance(args[0], Ptr) else args[0]
        if isinstance(v, Abs) and v.kind == "eptr" and v.d[0] is not None:
            return [(st, ("throw", Ptr(v.d[0], 0)))]
        raise Unsupported("rethrow_exception of %r" % (v,))

    @fn(r"^std::__exception_ptr::exception_ptr::exception_ptr\(std::__exception_ptr::exception_ptr", "exception_ptr copy")
    def ep_copy(ex, st, name, args, I):
        ex.store(st, args[0], PTR, ex.load(st, args[1], PTR))
        return R(st)

    @fn(r"^std::__exception_ptr::exception_ptr::(~exception_ptr|_M_release|_M_addref)\(", "exception_ptr release")
    def ep_rel(ex, st, name, args, I):
        return R(st)

    @fn(r"^std::__exception_ptr::exception_ptr::operator bool", "exception_ptr::operator bool")
    def ep_bool(ex, st, name, args, I):
        v = ex.load(st, args[0], PTR)
        return R(st, isinstance(v, Abs) and v.d[0] is not None)

    @fn(r"^(__clang_call_terminate|std::terminate\(\)|std::__throw_\w+\(.*|abort)$", "std::terminate / __throw_*")
    def term(ex, st, name, args, I):
        dem = ex.mod.dem(name)
        m = re.match(r"std::__throw_(\w+)\(", dem)
        if m:
            ti = {"out_of_range_fmt": "_ZTISt12out_of_range", "out_of_range": "_ZTISt12out_of_range",
                  "length_error": "_ZTISt12length_error", "logic_error": "_ZTISt11logic_error",
                  "bad_function_call": "_ZTISt17bad_function_call", "bad_alloc": "_ZTISt9bad_alloc",
                  "bad_array_new_length": "_ZTISt9bad_alloc", "bad_cast": "_ZTISt8bad_cast"}.get(m.group(1))
            if ti is None:
                raise Unsupported(dem)
            p = ex.make_exc(st, ti)
            return [(st, ("throw", p))]
        ex.fail(st, "std::terminate reached")
        return []

    @fn(r"^__assert_fail$", "__assert_fail")
    def assert_fail(ex, st, name, args, I):
        msg = ""
        try:
            msg = "".join(map(chr, cstr_text(ex, st, args[0], "char")))
        except Unsupported:
            pass
        ex.fail(st, "assertion holds: " + msg)
        return []

    @fn(r"^__cxa_atexit$", "__cxa_atexit")
    def atexit(ex, st, name, args, I):
        return R(st, 0)

    @fn(r"^__dynamic_cast$", "__dynamic_cast")
    def dyncast(ex, st, name, args, I):
        raise Unsupported("dynamic_cast")

    # ---------------- exception classes: messages are unspecified
    @fn(r"^(std::(runtime_error|logic_error|out_of_range|length_error|invalid_argument)::~?\w+\()", "std exception ctor/dtor")
    def stdexc(ex, st, name, args, I):
        return R(st)

    @fn(r"^std::(runtime_error|exception|logic_error)::what\(\) const", "std::exception::what")
    def what(ex, st, name, args, I):
        return R(st, Abs("what", args[0].obj))

    register_ios(ex, fn)
    register_string(ex, fn)


def register_ios(ex, fn):
    B = r"^std::(?:basic_|w)?"

    @fn(r"^std::(basic_)?w?ios(<[^>]*>( >)?)?::basic_ios\(\)", "basic_ios()")
    def ios_ctor(ex, st, name, args, I):
        q = args[0]
        # the library default constructor leaves the stream to init()
        ios_init(ex, st, q, NULL, charty(ex.mod.dem(name)))
        return R(st)

    @fn(r"^std::(basic_)?w?ios(<[^>]*>( >)?)?::~basic_ios\(\)", "~basic_ios")
    def ios_dtor(ex, st, name, args, I):
        return R(st)

    @fn(r"^std::ios_base::(~ios_base|ios_base)\(", "ios_base ctor/dtor")
    def iosb(ex, st, name, args, I):
        return R(st)

    def stream_ctor(vboff):
        def h(ex, st, name, args, I):
            ct = charty(ex.mod.dem(name))
            p = args[0]
            if len(args) >= 2 and len(ex.mod.funcs[name].params) == 3 or "C2E" in name:
                # base-object constructor: (this, vtt, [sb])
                vtt = args[1]
                vp = ex.load(st, vtt, PTR)
                ex.store(st, p, PTR, vp)
                sb = args[2] if len(args) > 2 else NULL
            else:
                ex.store(st, p, PTR, vtable_for(ex, vboff))
                sb = args[1] if len(args) > 1 else NULL
            vp = ex.load(st, p, PTR)
            vb = ex.load(st, Ptr(vp.obj, vp.off - 24), IntTy(64))
            q = Ptr(p.obj, p.off + sgn(int(vb), 64))
            ios_init(ex, st, q, sb, ct)
            hook = getattr(ex, "on_stream", None)
            if hook:
                hook(ex, st, p, q, sb, ct)
            return R(st)
        return h
    fn(r"^std::(basic_)?w?istream(<[^>]*>( >)?)?::basic_istream\(", "basic_istream(streambuf*)")(stream_ctor(16))
    fn(r"^std::(basic_)?w?ostream(<[^>]*>( >)?)?::basic_ostream\(", "basic_ostream(streambuf*)")(stream_ctor(8))

    @fn(r"^std::(basic_)?w?[io]stream(<[^>]*>( >)?)?::~basic_[io]stream\(\)", "~basic_istream/ostream")
    def stream_dtor(ex, st, name, args, I):
        return R(st)

    @fn(r"^std::(basic_)?w?streambuf(<[^>]*>( >)?)?::basic_streambuf\(\)", "basic_streambuf()")
    def sb_ctor(ex, st, name, args, I):
        return R(st)

    @fn(r"^std::(basic_)?w?streambuf(<[^>]*>( >)?)?::~basic_streambuf\(\)", "~basic_streambuf")
    def sb_dtor(ex, st, name, args, I):
        return R(st)

    @fn(r"^std::locale::(locale|~locale)\(|^std::locale::classic\(\)|^std::(ios_base|basic_ios<.*>|ios|wios)::(getloc|imbue)\(|^std::(basic_)?w?ios(<[^>]*>( >)?)?::imbue\(",
        "std::locale handling")
    def loc(ex, st, name, args, I):
        dem = ex.mod.dem(name)
        if "classic" in dem:
            return R(st, Abs("localeref", "classic"))
        if "::getloc" in dem:
            v = Abs("locale", "of-stream")
            q = args[1]
            if isinstance(q, Ptr) and ("ios", q.obj, q.off, "loc") in st.g:
                v = iget(st, q, "loc")
            ex.store(st, args[0], PTR, v)
            return R(st)
        if "::imbue" in dem:
            # (sret, this, loc)
            q = args[1]
            v = ex.load(st, args[2], PTR)
            if isinstance(q, Ptr) and ("ios", q.obj, q.off, "loc") in st.g:
                iset(st, q, "loc", v)
            return R(st)
        if "~locale" in dem:
            return R(st)
        # constructors
        def rd(a):
            if isinstance(a, Abs):
                return a.d[0]
            v = ex.load(st, a, PTR)
            return v.d if isinstance(v, Abs) else v
        if re.search(r"locale\(std::locale const&, std::locale const&, int\)", dem):
            base, other, cat = rd(args[1]), rd(args[2]), args[3]
            ex.store(st, args[0], PTR, Abs("locale", "combine", base, other, cat))
            return R(st)
        if re.search(r"locale\(std::locale const&\)", dem):
            v = ex.load(st, args[1], PTR) if isinstance(args[1], Ptr) else Abs("locale", args[1].d[0])
            ex.store(st, args[0], PTR, v)
            return R(st)
        if dem.endswith("locale()"):
            ex.store(st, args[0], PTR, Abs("locale", "global"))
            return R(st)
        raise Unsupported(dem)

    def iosq(ex, st, args):
        p = args[0]
        if ("ios", p.obj, p.off, "rdbuf") in st.g:
            return p
        return ios_of(ex, st, p)

    IOS = r"^std::(basic_)?w?ios(<[^>]*>( >)?)?::"

    @fn(IOS + r"(eof|good|fail|bad|operator!|operator bool|rdstate)\(\) const", "basic_ios state queries")
    def q_state(ex, st, name, args, I):
        q = iosq(ex, st, args)
        dem = ex.mod.dem(name)
        if "::eof" in dem:
            return R(st, iget(st, q, "eof"))
        if "::good" in dem:
            return R(st, good(st, q))
        if "::bad" in dem:
            return R(st, iget(st, q, "bad"))
        f = Or_(iget(st, q, "fail"), iget(st, q, "bad"))
        if "operator bool" in dem:
            return R(st, Not_(f))
        if "rdstate" in dem:
            e = simp(bv(iget(st, q, "eof"), 32) * 2 + bv(iget(st, q, "fail"), 32) * 4 + bv(iget(st, q, "bad"), 32))
            return R(st, e)
        return R(st, f)

    @fn(IOS + r"setstate\(|" + IOS + r"clear\(", "basic_ios::setstate/clear")
    def setst(ex, st, name, args, I):
        q = iosq(ex, st, args)
        b = args[1]
        if not is_conc(b):
            raise Unsupported("symbolic setstate")
        if "::clear(" in ex.mod.dem(name):
            sb = iget(st, q, "rdbuf")
            isnull = isinstance(sb, Ptr) and sb.obj is None
            iset(st, q, "eof", bool(b & EOFBIT))
            iset(st, q, "fail", bool(b & FAILBIT))
            iset(st, q, "bad", bool(b & BADBIT) or isnull)
        else:
            setstate(st, q, bool(b & EOFBIT), bool(b & FAILBIT), bool(b & BADBIT))
        return R(st)

    @fn(IOS + r"rdbuf\(", "basic_ios::rdbuf")
    def rdbuf(ex, st, name, args, I):
        q = iosq(ex, st, args)
        old = iget(st, q, "rdbuf")
        if len(args) > 1:
            iset(st, q, "rdbuf", args[1])
            isnull = isinstance(args[1], Ptr) and args[1].obj is None
            iset(st, q, "eof", False)
            iset(st, q, "fail", False)
            iset(st, q, "bad", isnull)
        return R(st, old)

    @fn(IOS + r"copyfmt\(", "basic_ios::copyfmt")
    def copyfmt(ex, st, name, args, I):
        q, r = iosq(ex, st, args), iosq(ex, st, args[1:])
        for f in ("width", "prec", "flags", "fill", "loc"):
            iset(st, q, f, iget(st, r, f))
        return R(st, args[0])

    @fn(IOS + r"fill\(", "basic_ios::fill")
    def fill(ex, st, name, args, I):
        q = iosq(ex, st, args)
        old = iget(st, q, "fill")
        if len(args) > 1:
            iset(st, q, "fill", args[1])
        return R(st, old)

    @fn(IOS + r"widen\(", "basic_ios::widen (identity on ASCII)")
    def widen(ex, st, name, args, I):
        ct = charty(ex.mod.dem(name))
        v = args[1]
        w = CHARW[ct]
        if w == 8:
            return R(st, v)
        return R(st, mask(int(v), 8) if is_conc(v) else z3.ZeroExt(w - 8, v))

    # ios_base:: functions receive the basic_ios address (ios_base is its first base)
    def base_q(ex, st, p):
        if isinstance(p, Ptr) and ("ios", p.obj, p.off, "rdbuf") in st.g:
            return p
        return ios_of(ex, st, p)

    def bo(a, b, f32):
        if is_conc(a) and is_conc(b):
            return f32(int(a), int(b)) & 0xFFFFFFFF
        return simp(f32(bv(a, 32), bv(b, 32)))

    @fn(r"^std::ios_base::(flags|setf|unsetf|width|precision)\(", "ios_base flags/width/precision")
    def iosbase(ex, st, name, args, I):
        dem = ex.mod.dem(name)
        q = base_q(ex, st, args[0])
        op = re.match(r"^std::ios_base::(\w+)\(", dem).group(1)
        if op in ("width", "precision"):
            k = "width" if op == "width" else "prec"
            old = iget(st, q, k)
            if len(args) > 1:
                iset(st, q, k, args[1])
            return R(st, old)
        old = iget(st, q, "flags")
        if op == "flags":
            if len(args) > 1:
                iset(st, q, "flags", args[1])
        elif op == "setf" and len(args) == 2:
            iset(st, q, "flags", bo(old, args[1], lambda a, b: a | b))
        elif op == "setf":
            m = args[2]
            keep = bo(old, m, lambda a, b: a & ~b)
            add = bo(args[1], m, lambda a, b: a & b)
            iset(st, q, "flags", bo(keep, add, lambda a, b: a | b))
        elif op == "unsetf":
            iset(st, q, "flags", bo(old, args[1], lambda a, b: a & ~b))
        return R(st, old)

    MANIP = {"hex": (F_HEX, F_BASEFIELD), "dec": (F_DEC, F_BASEFIELD), "oct": (F_OCT, F_BASEFIELD),
             "uppercase": (F_UPPER, 0), "nouppercase": (0, F_UPPER), "skipws": (F_SKIPWS, 0),
             "noskipws": (0, F_SKIPWS), "fixed": (F_FIXED, F_FLOAT), "scientific": (F_SCI, F_FLOAT),
             "showbase": (F_SHOWBASE, 0), "noshowbase": (0, F_SHOWBASE), "showpos": (F_SHOWPOS, 0),
             "noshowpos": (0, F_SHOWPOS), "right": (F_RIGHT, F_ADJ), "left": (F_LEFT, F_ADJ),
             "internal": (F_INTERNAL, F_ADJ), "defaultfloat": (0, F_FLOAT), "showpoint": (F_SHOWPOINT, 0),
             "noshowpoint": (0, F_SHOWPOINT)}

    def manip(ex, st, q, nm):
        on, off = MANIP[nm]
        fl = iget(st, q, "flags")
        fl = bo(fl, off, lambda a, b: a & ~b)
        iset(st, q, "flags", bo(fl, on, lambda a, b: a | b))

    @fn(r"^std::(%s)\(std::ios_base&\)" % "|".join(MANIP), "ios_base manipulators")
    def manip_call(ex, st, name, args, I):
        nm = re.match(r"^std::(\w+)\(", ex.mod.dem(name)).group(1)
        manip(ex, st, base_q(ex, st, args[0]), nm)
        return R(st, args[0])

    @fn(r"^std::(basic_)?w?[io]stream(<[^>]*>( >)?)?::operator(<<|>>)\((std::ios_base&|std::(basic_)?w?[io]stream.*|std::basic_ios<.*|std::ios&|std::wios&) ?(&? ?\(\*\))",
        "stream << manipulator")
    def os_manip(ex, st, name, args, I):
        f = args[1]
        if not isinstance(f, Fn):
            raise Unsupported("manipulator %r" % (f,))
        dem = ex.mod.dem(f.name)
        m = re.match(r"^std::(\w+)\(std::ios_base&\)", dem)
        q = ios_of(ex, st, args[0])
        if m and m.group(1) in MANIP:
            manip(ex, st, q, m.group(1))
            return R(st, args[0])
        if re.match(r"^std::.*\bendl", dem):
            raise Unsupported("endl")
        # user manipulator
        r = ex.call(st, f.name, [args[0]])
        return [(s, ("ret", args[0]) if o[0] == "ret" else o) for s, o in r]

    @fn(r"std::operator(<<|>>) ?<.*\(std::(?:basic_)?w?[io]stream[^&]*&, std::_(Setw|Setfill|Setprecision|Setiosflags|Resetiosflags|Setbase)", "stream << setw/setfill/setprecision")
    def os_setx(ex, st, name, args, I):
        dem = ex.mod.dem(name)
        k = re.search(r"&, std::_(Setw|Setfill|Setprecision|Setiosflags|Resetiosflags|Setbase)", dem).group(1)
        q = ios_of(ex, st, args[0])
        v = args[1]
        if isinstance(v, Ptr):
            raise Unsupported("manipulator by pointer")
        if k == "Setw":
            iset(st, q, "width", mask(sgn(int(v), 32), 64) if is_conc(v) else simp(z3.SignExt(32, v)))
        elif k == "Setprecision":
            iset(st, q, "prec", mask(sgn(int(v), 32), 64) if is_conc(v) else simp(z3.SignExt(32, v)))
        elif k == "Setfill":
            iset(st, q, "fill", v)
        else:
            raise Unsupported(dem)
        return R(st, args[0])

    # ---------------- input
    @fn(r"^std::(basic_)?w?istream(<[^>]*>( >)?)?::sentry::sentry\(", "istream::sentry (skips white space unless skipws is off)")
    def isent(ex, st, name, args, I):
        q = ios_of(ex, st, args[1])
        outs = []
        for s, ok in split(ex, st, good(st, q)):
            if not ok:
                setstate(s, q, fail=True)
                ex.store_cell(s, args[0], 1, 0)
                outs.append((s, ("ret", None)))
                continue
            noskip = args[2] if len(args) > 2 else 0
            fl = bv(iget(s, q, "flags"), 32)
            for s1, skip in split(ex, s, z3.And(z3.Not(toB(noskip)) if not is_conc(noskip) else z3.BoolVal(not noskip), (fl & F_SKIPWS) != 0)):
                if not skip:
                    ex.store_cell(s1, args[0], 1, 1)
                    outs.append((s1, ("ret", None)))
                    continue
                s1.g["skipped"] = True
                for s2, end in split(ex, s1, z3.Bool("only_white_space_left")):
                    if end:
                        setstate(s2, q, eof=True, fail=True)
                    ex.store_cell(s2, args[0], 1, 0 if end else 1)
                    outs.append((s2, ("ret", None)))
        return outs

    @fn(r"^std::(basic_)?w?istream(<[^>]*>( >)?)?::sentry::operator bool\(\) const", "istream::sentry::operator bool")
    def isentb(ex, st, name, args, I):
        return R(st, ex.icmp("ne", ex.load(st, args[0], IntTy(8)), 0, IntTy(8)))

    IST = r"^std::(basic_)?w?istream(<[^>]*>( >)?)?::"

    @fn(IST + r"get\(\)", "basic_istream::get()")
    def get(ex, st, name, args, I):
        ct = charty(ex.mod.dem(name))
        q = ios_of(ex, st, args[0])
        outs = []
        for s, ok in split(ex, st, good(st, q)):
            if not ok:
                setstate(s, q, fail=True)
                outs.append((s, ("ret", eofval(ct))))
                continue
            for s2, o in vcall(ex, s, iget(s, q, "rdbuf"), "uflow", []):
                if o[0] == "throw":
                    setstate(s2, q, bad=True)
                    outs.append((s2, ("ret", eofval(ct))))
                    continue
                for s3, e in split(ex, s2, is_eof(ex, o[1], ct)):
                    if e:
                        setstate(s3, q, eof=True, fail=True)
                    outs.append((s3, ("ret", o[1])))
        return outs

    @fn(IST + r"peek\(\)", "basic_istream::peek()")
    def peek(ex, st, name, args, I):
        ct = charty(ex.mod.dem(name))
        q = ios_of(ex, st, args[0])
        outs = []
        for s, ok in split(ex, st, good(st, q)):
            if not ok:
                setstate(s, q, fail=True)
                outs.append((s, ("ret", eofval(ct))))
                continue
            for s2, o in vcall(ex, s, iget(s, q, "rdbuf"), "underflow", []):
                if o[0] == "throw":
                    setstate(s2, q, bad=True)
                    outs.append((s2, ("ret", eofval(ct))))
                    continue
                for s3, e in split(ex, s2, is_eof(ex, o[1], ct)):
                    if e:
                        setstate(s3, q, eof=True)
                    outs.append((s3, ("ret", o[1])))
        return outs

    # ---------------- output
    OST = r"^std::(basic_)?w?ostream(<[^>]*>( >)?)?::"

    def osentry(ex, st, q):
        return split(ex, st, good(st, q))

    @fn(OST + r"sentry::sentry\(", "ostream::sentry")
    def osent(ex, st, name, args, I):
        q = ios_of(ex, st, args[1])
        outs = []
        for s, ok in osentry(ex, st, q):
            if not ok:
                setstate(s, q, fail=True)
            ex.store_cell(s, args[0], 1, 1 if ok else 0)
            outs.append((s, ("ret", None)))
        return outs

    @fn(OST + r"sentry::operator bool\(\) const", "ostream::sentry::operator bool")
    def osentb(ex, st, name, args, I):
        return R(st, ex.icmp("ne", ex.load(st, args[0], IntTy(8)), 0, IntTy(8)))

    @fn(OST + r"sentry::~sentry\(", "ostream::sentry destructor (the sink is not flushed)")
    def osentd(ex, st, name, args, I):
        return R(st)

    @fn(OST + r"put\(", "basic_ostream::put()")
    def put(ex, st, name, args, I):
        ct = charty(ex.mod.dem(name))
        q = ios_of(ex, st, args[0])
        outs = []
        for s, ok in osentry(ex, st, q):
            if not ok:
                outs.append((s, ("ret", args[0])))
                continue
            for s2, o in sputc(ex, s, q, args[1], ct):
                if o[0] == "throw":
                    setstate(s2, q, bad=True)
                outs.append((s2, ("ret", args[0])))
        return outs

    def do_write(ex, s, q, p, n, ct):
        outs = []
        for s2, o in vcall(ex, s, iget(s, q, "rdbuf"), "xsputn", [p, n]):
            if o[0] == "throw":
                setstate(s2, q, bad=True)
                outs.append(s2)
                continue
            for s3, e in split(ex, s2, ex.icmp("eq", o[1], n, IntTy(64))):
                if not e:
                    setstate(s3, q, bad=True)
                outs.append(s3)
        return outs

    @fn(OST + r"write\(", "basic_ostream::write()")
    def write(ex, st, name, args, I):
        ct = charty(ex.mod.dem(name))
        q = ios_of(ex, st, args[0])
        outs = []
        for s, ok in osentry(ex, st, q):
            if not ok:
                outs.append((s, ("ret", args[0])))
                continue
            for s2 in do_write(ex, s, q, args[1], args[2], ct):
                outs.append((s2, ("ret", args[0])))
        return outs

    @fn(OST + r"flush\(", "basic_ostream::flush()")
    def flush(ex, st, name, args, I):
        return R(st, args[0])

    def insert(ex, st, q, chars, ct):
        """formatted insertion of a constant or symbolic character list with padding"""
        outs = []
        for s, ok in osentry(ex, st, q):
            if not ok:
                outs.append(s)
                continue
            w = decide(ex, s, iget(s, q, "width"), (0, 4))
            if w is None:
                raise Unsupported("symbolic field width in a formatted insertion")
            pad = max(0, sgn(int(w), 64) - len(chars))
            fl = iget(s, q, "flags")
            left = False
            if pad:
                adj = flagbits(ex, s, fl, F_ADJ, (0, F_LEFT, F_RIGHT, F_INTERNAL))
                if adj is None:
                    raise Unsupported("symbolic flags with padding")
                left = adj == F_LEFT
            fillc = iget(s, q, "fill")
            seq = ([] if left else [fillc] * pad) + list(chars) + ([fillc] * pad if left else [])
            iset(s, q, "width", 0)
            cwb = CHARW[ct] // 8
            tmp = ex.alloc(s, "chars", max(1, len(seq) * cwb), "alloca")
            for i, c in enumerate(seq):
                if is_conc(c):
                    c = mask(int(c), CHARW[ct])
                elif c.size() < CHARW[ct]:
                    c = z3.ZeroExt(CHARW[ct] - c.size(), c)
                elif c.size() > CHARW[ct]:
                    c = z3.Extract(CHARW[ct] - 1, 0, c)
                ex.store_cell(s, Ptr(tmp.obj, i * cwb), cwb, c)
            if seq:
                outs += do_write(ex, s, q, tmp, len(seq), ct)
            else:
                outs.append(s)
        return outs

    ex.fmt_insert = insert

    @fn(r"std::operator<< ?<.*\(std::(?:basic_)?w?ostream(?:<[^&]*>)?&, (signed |unsigned )?(char|wchar_t|char16_t|char32_t)\)", "ostream << character")
    def os_char(ex, st, name, args, I):
        ct = charty(ex.mod.dem(name))
        q = ios_of(ex, st, args[0])
        return [(s, ("ret", args[0])) for s in insert(ex, st, q, [args[1]], ct)]

    @fn(r"std::operator<< ?<.*\(std::(?:basic_)?w?ostream(?:<[^&]*>)?&, (char|wchar_t) const\*\)", "ostream << C string")
    def os_cstr(ex, st, name, args, I):
        dem = ex.mod.dem(name)
        ct = charty(dem)
        q = ios_of(ex, st, args[0])
        src = "char" if re.search(r"&, char const\*\)", dem) else "wchar_t"
        p = args[1]
        if isinstance(p, Abs):
            h = ex.abs_cmp.get(("oscstr", p.kind))
            if h:
                return h(ex, st, q, p, ct, args)
            raise Unsupported("<< of %r" % (p,))
        if isinstance(p, Ptr) and p.obj is None:
            ex.fail(st, "null C string inserted")
            return []
        chars = cstr_text(ex, st, p, src)
        return [(s, ("ret", args[0])) for s in insert(ex, st, q, chars, ct)]

    @fn(r"std::operator<< ?<.*\(std::(?:basic_)?w?ostream(?:<[^&]*>)?&, std::__cxx11::basic_string<", "ostream << string")
    def os_str(ex, st, name, args, I):
        ct = charty(ex.mod.dem(name))
        q = ios_of(ex, st, args[0])
        t = str_get(ex, st, args[1])
        outs = []
        for s, ok in osentry(ex, st, q):
            if not ok:
                outs.append((s, ("ret", args[0])))
                continue
            w = iget(s, q, "width")
            if not (is_conc(w) and int(w) == 0):
                raise Unsupported("padded string insertion")
            for s2 in do_write(ex, s, q, Abs("cstr", t), LEN(t), ct):
                outs.append((s2, ("ret", args[0])))
        return outs

    def hexdigits(ex, st, v, n, up):
        """-> [(st, [chars])]: minimal hex digits of an unsigned value"""
        if is_conc(v):
            return [(st, [ord(c) for c in ("%X" if up else "%x") % mask(int(v), n)])]
        outs = []
        cur = st
        for d in range(1, n // 4 + 1):
            last = d == n // 4
            cond = True if last else z3.ULT(v, z3.BitVecVal(1 << (4 * d), n))
            res = split(ex, cur, cond) if not last else [(cur, True)]
            nxt = None
            for s, b in res:
                if b:
                    ch = []
                    for i in reversed(range(d)):
                        nib = z3.ZeroExt(4, z3.Extract(4 * i + 3, 4 * i, v))
                        ch.append(simp(z3.If(z3.ULT(nib, 10), nib + 48, nib + (55 if up else 87))))
                    outs.append((s, ch))
                else:
                    nxt = s
            if nxt is None:
                break
            cur = nxt
        return outs

    @fn(OST + r"operator<<\((unsigned short|short|unsigned int|int|unsigned long|long|long long|unsigned long long|bool|double|float|long double)\)", "ostream << number")
    def os_num(ex, st, name, args, I):
        dem = ex.mod.dem(name)
        ct = charty(dem)
        ty = re.search(r"operator<<\(([^)]*)\)", dem).group(1)
        q = ios_of(ex, st, args[0])
        v = args[1]
        fl = iget(st, q, "flags")
        outs = []
        if ty in ("double", "float", "long double"):
            h = getattr(ex, "put_double", None)
            if h is None:
                raise Unsupported("ostream << floating point")
            return h(ex, st, q, v, ct, args)
        bits = {"unsigned short": 16, "short": 16, "unsigned int": 32, "int": 32}.get(ty, 64)
        unsigned = ty.startswith("unsigned")
        if ty == "bool":
            raise Unsupported("ostream << bool")
        base = flagbits(ex, st, fl, F_BASEFIELD, (F_DEC, F_HEX, 0))
        if base is None:
            raise Unsupported("integer insertion under unknown stream flags")
        hook = getattr(ex, "num_locale", None)
        if hook:
            hook(ex, st, q)
        if base == F_HEX:
            if flagbits(ex, st, fl, F_SHOWBASE, (0, F_SHOWBASE)) != 0:
                raise Unsupported("showbase")
            up = flagbits(ex, st, fl, F_UPPER, (0, F_UPPER))
            if up is None:
                raise Unsupported("hexadecimal insertion under unknown case")
            for s, ch in hexdigits(ex, st, v, bits, bool(up)):
                outs += [(s2, ("ret", args[0])) for s2 in insert(ex, s, q, ch, ct)]
            return outs
        h = getattr(ex, "put_int", None)
        if h is None:
            if is_conc(v):
                sv = mask(int(v), bits) if unsigned else sgn(int(v), bits)
                return [(s, ("ret", args[0])) for s in insert(ex, st, q, [ord(c) for c in str(sv)], ct)]
            raise Unsupported("ostream << integer")
        if base not in (0, F_DEC) or flagbits(ex, st, fl, F_SHOWPOS, (0, F_SHOWPOS)) != 0:
            raise Unsupported("integer insertion, base or sign flags")
        return h(ex, st, q, v, bits, unsigned, ct, args)


# -------------------------------------------------------------------- strings
def str_get(ex, st, p):
    if isinstance(p, Abs):
        h = ex.abs_cmp.get(("strtext", p.kind))
        if h:
            return h(ex, st, p)
        raise Unsupported("string at %r" % (p,))
    k = ("str", p.obj, p.off)
    v = st.g.get(k)
    if v is None:
        hk = ex.abs_cmp.get(("strlazy", ex.objs[p.obj].kind))
        if hk:
            v = hk(ex, st, p)
            if v is not None:
                return v
        if ex.objs[p.obj].lazy:
            v = ex.fresh("text_" + ex.objs[p.obj].name, TXT)
            st.g[k] = v
            return v
        raise Unsupported("uninitialised string object %s" % ex.objs[p.obj].name)
    if p.obj in st.freed:
        ex.fail(st, "use of freed string")
    return v


def str_set(ex, st, p, t):
    st.g[("str", p.obj, p.off)] = t
    r = st.g.get(("strrep", p.obj, p.off))
    if r is not None and not t.decl().name().startswith("resized"):
        del st.g[("strrep", p.obj, p.off)]


def str_copy(ex, st, dst, src):
    str_set(ex, st, dst, str_get(ex, st, src))
    r = st.g.get(("strrep", src.obj, src.off)) if isinstance(src, Ptr) else None
    if r is not None:
        st.g[("strrep", dst.obj, dst.off)] = r


def lit_text(chars):
    t = EMPTY
    for c in chars:
        t = PUT(t, z3.BitVecVal(c, 32))
    return t


def text_of_chars(ex, st, p, n, ct):
    return read_text(ex, st, p, n, ct, EMPTY)


CUT = z3.Function("CUT", TXT, TXT)      # the characters before the first NUL


def cut_text(ex, st, p):
    t = p.d[0]
    x = t
    while z3.is_app(x) and x.decl().eq(PUT) and z3.is_bv_value(x.arg(1)) and x.arg(1).as_long() != 0:
        x = x.arg(0)
    return t if x.eq(EMPTY) else CUT(t)


def register_string(ex, fn):
    ex.abs_cmp[("cstrtext", "cstr")] = cut_text
    ex.abs_cmp[("cstrlen", "cstr")] = lambda ex, st, p: LEN(cut_text(ex, st, p))
    ex.abs_cmp[("cstrtext", "zstr")] = lambda ex, st, p: p.d[0]      # a text without NUL
    S = r"^std::__cxx11::basic_string<.*>::"

    @fn(S + r"basic_string\(", "basic_string constructors")
    def ctor(ex, st, name, args, I):
        dem = ex.mod.dem(name)
        ct = charty(dem)
        sig = dem[dem.index("::basic_string(") + len("::basic_string("):]
        if sig.startswith(")") or re.match(r"std::allocator<\w+> const&\)", sig):
            str_set(ex, st, args[0], EMPTY)
            return R(st)
        if re.match(r"std::__cxx11::basic_string<.*> ?(const&|&&)", sig) and "unsigned long" not in sig:
            str_copy(ex, st, args[0], args[1])
            if "&&" in sig:
                str_set(ex, st, args[1], EMPTY)
            return R(st)
        if re.match(r"(char|wchar_t|char16_t|char32_t) const\*, std::allocator", sig):
            p = args[1]
            if isinstance(p, Abs):
                h = ex.abs_cmp.get(("cstrtext", p.kind))
                if h:
                    str_set(ex, st, args[0], h(ex, st, p))
                    return R(st)
                raise Unsupported("string from %r" % (p,))
            if p.obj is None:
                ex.fail(st, "string constructed from a null pointer")
                return []
            str_set(ex, st, args[0], lit_text(cstr_text(ex, st, p, ct)))
            return R(st)
        if re.match(r"(char|wchar_t) const\*, unsigned long, std::allocator", sig):
            str_set(ex, st, args[0], text_of_chars(ex, st, args[1], args[2], ct))
            return R(st)
        raise Unsupported("string constructor " + dem)

    @fn(S + r"~basic_string\(\)", "~basic_string")
    def dtor(ex, st, name, args, I):
        p = args[0]
        if isinstance(p, Ptr):
            k = ("str", p.obj, p.off)
            if k in st.g and st.g[k] is None:
                ex.fail(st, "string destroyed twice")
            if not ex.objs[p.obj].lazy or k in st.g:
                st.g.pop(k, None)
                st.g.pop(("strrep", p.obj, p.off), None)
        return R(st)

    @fn(S + r"(size|length)\(\) const", "basic_string::size")
    def size(ex, st, name, args, I):
        t = str_get(ex, st, args[0])
        return R(st, 0 if t.eq(EMPTY) else simp(LEN(t)))

    @fn(S + r"empty\(\) const", "basic_string::empty")
    def empty(ex, st, name, args, I):
        t = str_get(ex, st, args[0])
        return R(st, simp(LEN(t) == 0) if not t.eq(EMPTY) else True)

    @fn(S + r"push_back\(", "basic_string::push_back")
    def push_back(ex, st, name, args, I):
        ct = charty(ex.mod.dem(name))
        t = str_get(ex, st, args[0])
        str_set(ex, st, args[0], PUT(t, to32(args[1], ct)))
        return R(st)

    @fn(S + r"(append|operator\+=)\(", "basic_string::append")
    def append(ex, st, name, args, I):
        dem = ex.mod.dem(name)
        ct = charty(dem)
        t = str_get(ex, st, args[0])
        m = re.search(r"::(append|operator\+=)\((.*)\)$", dem)
        sig = m.group(2)
        if re.match(r"(char|wchar_t|char16_t|char32_t) const\*, unsigned long$", sig):
            str_set(ex, st, args[0], read_text(ex, st, args[1], args[2], ct, t))
        elif re.match(r"(char|wchar_t|char16_t|char32_t) const\*$", sig):
            for c in cstr_text(ex, st, args[1], ct):
                t = PUT(t, z3.BitVecVal(c, 32))
            str_set(ex, st, args[0], t)
        elif re.match(r"(char|wchar_t|char16_t|char32_t)$", sig):
            str_set(ex, st, args[0], PUT(t, to32(args[1], ct)))
        elif "basic_string" in sig:
            str_set(ex, st, args[0], CATT(t, str_get(ex, st, args[1])))
        else:
            raise Unsupported(dem)
        return R(st, args[0])

    @fn(S + r"operator=\(", "basic_string::operator=")
    def assign(ex, st, name, args, I):
        dem = ex.mod.dem(name)
        sig = re.search(r"::operator=\((.*)\)$", dem).group(1)
        if "basic_string" in sig:
            str_copy(ex, st, args[0], args[1])
            if "&&" in sig and not same(args[0], args[1]):
                str_set(ex, st, args[1], ex.fresh("moved_from", TXT))
        elif re.match(r"(char|wchar_t) const\*$", sig):
            p = args[1]
            if isinstance(p, Abs):
                h = ex.abs_cmp.get(("cstrtext", p.kind))
                if not h:
                    raise Unsupported("string assigned from %r" % (p,))
                str_set(ex, st, args[0], h(ex, st, p))
            else:
                str_set(ex, st, args[0], lit_text(cstr_text(ex, st, p, charty(dem))))
        else:
            raise Unsupported(dem)
        return R(st, args[0])

    @fn(S + r"clear\(\)", "basic_string::clear")
    def clear(ex, st, name, args, I):
        str_set(ex, st, args[0], EMPTY)
        return R(st)

    @fn(S + r"reserve\(", "basic_string::reserve")
    def reserve(ex, st, name, args, I):
        return R(st)

    @fn(S + r"resize\(unsigned long, (char|wchar_t)\)", "basic_string::resize")
    def resize(ex, st, name, args, I):
        p, n, c = args
        n = bv(n, 64)
        t = str_get(ex, st, p)
        c = to32(c, charty(ex.mod.dem(name)))
        k = ("strrep", p.obj, p.off)
        old = st.g.get(k)
        r = ex.fresh("resized", TXT)
        st.assume(LEN(r) == n)
        if t.eq(EMPTY) or ex.prove(st, LEN(t) == 0)[0] == "proved" or old is not None and same(simp(old[0]), simp(c)):
            st.g[k] = (c, n)       # n copies of one character
        else:
            st.g.pop(k, None)
        str_set(ex, st, p, r)
        return R(st)

    @fn(S + r"operator\[\]\(", "basic_string::operator[]")
    def index(ex, st, name, args, I):
        t = str_get(ex, st, args[0])
        ex.oblige(st, z3.ULE(bv(args[1], 64), LEN(t)), "string index in bounds")
        return R(st, Abs("strch", t, bv(args[1], 64), charty(ex.mod.dem(name))))

    def strch_load(ex, st, p, ty):
        t, i, ct = p.d
        return simp(z3.Extract(ty.n - 1, 0, AT(t, i))) if ty.n < 32 else AT(t, i)
    ex.abs_cmp[("load", "strch")] = strch_load

    @fn(S + r"(find_first_of|find)\(", "basic_string::find")
    def findc(ex, st, name, args, I):
        dem = ex.mod.dem(name)
        ct = charty(dem)
        m = re.search(r"::(find_first_of|find)\((.*)\) const$", dem)
        t = str_get(ex, st, args[0])
        if re.match(r"(char|wchar_t), unsigned long$", m.group(2)) and is_conc(args[1]):
            chars = [mask(int(args[1]), CHARW[ct])]
        elif re.match(r"(char|wchar_t) const\*, unsigned long$", m.group(2)):
            chars = cstr_text(ex, st, args[1], ct)
            if m.group(1) == "find" and len(chars) != 1:
                raise Unsupported(dem)
        else:
            raise Unsupported(dem)
        if not (is_conc(args[2]) and int(args[2]) == 0):
            raise Unsupported("find from a position")
        r = ex.fresh("found", 64)
        st.assume((r != z3.BitVecVal(-1, 64)) == z3.Or([HASCH(t, z3.BitVecVal(c, 32)) for c in sorted(set(chars))]))
        st.assume(z3.Or(r == z3.BitVecVal(-1, 64), z3.ULT(r, LEN(t))))
        return R(st, r)

    @fn(S + r"(c_str|data)\(\)", "basic_string::c_str")
    def c_str(ex, st, name, args, I):
        p = args[0]
        if isinstance(p, Ptr):
            k = ("strrep", p.obj, p.off)
            r = st.g.get(k)
            if r is not None:
                return R(st, Abs("cstr", str_get(ex, st, p), r[0], r[1]))
        return R(st, Abs("cstr", str_get(ex, st, p)))

    @fn(r"std::operator(==|!=|<|>|<=|>=) ?<.*\(std::__cxx11::basic_string<.*, std::__cxx11::basic_string<", "string comparison")
    def cmp(ex, st, name, args, I):
        dem = ex.mod.dem(name)
        op = re.search(r"std::operator(==|!=|<=|>=|<|>)", dem).group(1)
        a, b = str_get(ex, st, args[0]), str_get(ex, st, args[1])
        return R(st, simp(str_rel(op, a, b)))

    @fn(S + r"compare\(", "basic_string::compare")
    def compare(ex, st, name, args, I):
        dem = ex.mod.dem(name)
        if "basic_string<" not in dem.split("::compare(")[1]:
            raise Unsupported(dem)
        a, b = str_get(ex, st, args[0]), str_get(ex, st, args[1])
        return R(st, simp(z3.If(a == b, z3.BitVecVal(0, 32), z3.If(TLT(a, b), z3.BitVecVal(-1, 32), z3.BitVecVal(1, 32)))))

    @fn(r"std::operator\+ ?<.*std::__cxx11::basic_string<", "string concatenation (message text unspecified)")
    def concat(ex, st, name, args, I):
        str_set(ex, st, args[0], ex.fresh("concat", TXT))
        return R(st)

    @fn(r"^std::allocator<.*>::(allocator|~allocator)\(|^std::__new_allocator<.*>::(__new_allocator|~__new_allocator)\(", "std::allocator ctor/dtor")
    def allo(ex, st, name, args, I):
        return R(st)

    @fn(r"^std::char_traits<(char|wchar_t|char16_t|char32_t)>::length\(", "char_traits::length")
    def length(ex, st, name, args, I):
        p = args[0]
        if isinstance(p, Abs):
            h = ex.abs_cmp.get(("cstrlen", p.kind))
            if h:
                return R(st, h(ex, st, p))
            raise Unsupported("length of %r" % (p,))
        if isinstance(p, Ptr) and p.obj is not None and ("cstr", p.obj) in st.g:
            return R(st, LEN(st.g[("cstr", p.obj)]))
        ct = re.search(r"char_traits<(\w+)>", ex.mod.dem(name)).group(1)
        return R(st, len(cstr_text(ex, st, p, ct)))

    @fn(r"^(strlen|wcslen)$", "strlen")
    def slen(ex, st, name, args, I):
        p = args[0]
        if isinstance(p, Ptr) and p.obj is not None and ("cstr", p.obj) in st.g:
            return R(st, LEN(st.g[("cstr", p.obj)]))
        return R(st, len(cstr_text(ex, st, p, "char" if name == "strlen" else "wchar_t")))


HASCH = z3.Function("HASCH", TXT, z3.BitVecSort(32), z3.BoolSort())      # the text contains the character
TLT = z3.Function("TLT", TXT, TXT, z3.BoolSort())


def str_rel(op, a, b):
    if op == "==":
        return a == b
    if op == "!=":
        return a != b
    if op == "<":
        return TLT(a, b)
    if op == ">":
        return TLT(b, a)
    if op == "<=":
        return z3.Not(TLT(b, a))
    return z3.Not(TLT(a, b))
