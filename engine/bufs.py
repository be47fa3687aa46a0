"""Stream buffers and adapters: abstract character arrays, files, adapters and the contracts of the reading and writing
virtual functions.  Character position J is one arbitrary (universally quantified) index of the destination of a block read:
what holds for it holds for every index."""
import re
import z3
from llir import Unsupported, PTR, IntTy
from sym import Ptr, NULL, Abs, Fn, UNDEF, State, simp, same, toB, bv, is_conc
from stdlib import TXT, EMPTY, LEN, AT, PUT, CATT, R, str_get, str_set, split, CHARW, to32
from vc import Contract, Case, ANY
from models import new_executor, find

BV64 = z3.BitVecSort(64)
K = lambda v: z3.BitVecVal(v, 64)
J = z3.BitVec("J", 64)
BIG = 1 << 61
PUTS = z3.Function("PUTS", TXT, TXT, BV64, BV64, TXT)      # text T followed by n characters of t from o


def unit(ct, t, i):
    """i-th character of t as a 32-bit number"""
    return AT(t, i) if CHARW[ct] == 32 else z3.ZeroExt(32 - CHARW[ct], z3.Extract(CHARW[ct] - 1, 0, AT(t, i)))


def eofv(ct):
    return z3.BitVecVal(0xFFFFFFFF, 32)


def buf_executor(mod, ct, **kw):
    ex = new_executor(mod, "", **kw)
    ex.merge = True
    ex.eager = True
    ex.nocounted = True
    ex.rounds = 3
    w = CHARW[ct] // 8
    ex.th.define(PUTS, lambda T, t, o, n: z3.If(n == 0, T, PUT(PUTS(T, t, o, n - 1), unit(ct, t, o + n - 1))))
    ex.chars, ex.dst = {}, {}

    def idx(off):
        if is_conc(off):
            if int(off) % w:
                raise Unsupported("misaligned character access")
            return K(int(off) // w)
        return off if w == 1 else z3.simplify(z3.LShR(off, K(2)) if w == 4 else off)

    ex.char_idx = idx

    def chars_load(ex, st, p, ty):
        t, n = ex.chars[p.obj]
        i = idx(p.off)
        if ty.n != 8 * w:
            raise Unsupported("character array read as %r" % ty)
        ex.oblige(st, z3.ULT(i, n), "read inside the character array")
        u = AT(t, i)
        return simp(z3.Extract(8 * w - 1, 0, u)) if w < 4 else u
    ex.lazy_load["chars"] = chars_load

    def dst_put(ex, st, p, i, v):
        cap = ex.dst[p.obj]
        ex.oblige(st, z3.ULT(i, cap), "write inside the destination")
        k = ("dstJ", p.obj)
        st.g[k] = simp(z3.If(i == J, to32(v, ct), st.g[k]))
        return True

    def dst_store(ex, st, p, sz, v):
        if sz != w:
            raise Unsupported("character array written in units of %d" % sz)
        return dst_put(ex, st, p, idx(p.off), v)
    ex.abs_cmp[("storehook", "dst")] = dst_store

    def blk(ex, st, d, do, t, so, n):
        """copy n characters of text t from so to destination d+do"""
        cap = ex.dst[d.obj]
        i = idx(d.off)
        ex.oblige(st, z3.And(z3.ULE(n, cap), z3.ULE(i, cap - n)), "block write inside the destination")
        k = ("dstJ", d.obj)
        st.g[k] = simp(z3.If(z3.And(z3.UGE(J, i), z3.ULT(J - i, n)), unit(ct, t, so + (J - i)), st.g[k]))
    ex.blk = blk

    def source(ex, st, p):
        """(text, offset, length available) behind a character pointer"""
        if isinstance(p, Ptr) and p.obj in ex.chars:
            t, n = ex.chars[p.obj]
            return t, idx(p.off), n
        if isinstance(p, Abs) and p.kind == "cstr":
            return p.d[0], K(0), LEN(p.d[0])
        if isinstance(p, Abs) and p.kind == "strch":
            return p.d[0], p.d[1], LEN(p.d[0])
        if isinstance(p, Abs) and p.kind == "cat":
            return p.d[0], p.d[1], LEN(p.d[0])
        raise Unsupported("characters behind %r" % (p,))
    ex.chsource = source

    def cgep(ex, base, ty, idxs):
        t, o, n = source(ex, None, base)
        it, iv = idxs[0]
        if len(idxs) != 1:
            raise Unsupported("character pointer arithmetic")
        return Abs("cat", t, simp(o + bv(iv, 64)))
    ex.abs_cmp[("gep", "cstr")] = cgep
    ex.abs_cmp[("gep", "strch")] = cgep
    ex.abs_cmp[("gep", "cat")] = cgep

    def cat_load(ex, st, p, ty):
        t, o = p.d
        ex.oblige(st, z3.ULE(o, LEN(t)), "read inside the string")
        return simp(z3.Extract(ty.n - 1, 0, AT(t, o))) if ty.n < 32 else AT(t, o)
    ex.abs_cmp[("load", "cat")] = cat_load

    def copy(ex, st, name, args, I):
        d, s, n = args[:3]
        n = bv(n, 64)
        if not (isinstance(d, Ptr) and d.obj in ex.dst):
            raise Unsupported("copy to %r" % (d,))
        t, o, m = source(ex, st, s)
        ex.oblige(st, z3.And(z3.ULE(n, m), z3.ULE(o, m - n)), "block read inside the source")
        blk(ex, st, d, 0, t, o, n)
        return R(st, d)
    ex.add_contract(r"^std::char_traits<\w+>::(copy|move)\(", copy, "char_traits::copy", front=True)
    ex.memcpy_hook = lambda ex, st, d, s, n: copy(ex, st, "", [d, s, (n if is_conc(n) or w == 1 else z3.simplify(z3.LShR(n, K(2)))) if not (is_conc(n) and w == 4) else int(n) // 4], None) if isinstance(d, Ptr) and d.obj in ex.dst else None
    ex.add_contract(r"^wmem(cpy|move)$", copy, "wmemcpy", front=True)

    def scopy(ex, st, name, args, I):
        p, d, n, pos = args
        t = str_get(ex, st, p)
        n, pos = bv(n, 64), bv(pos, 64)
        outs = []
        for s, bad in split(ex, st, z3.UGT(pos, LEN(t))):
            if bad:
                outs.append((s, ("throw", ex.make_exc(s, "_ZTISt12out_of_range"))))
                continue
            m = simp(z3.If(z3.ULT(n, LEN(t) - pos), n, LEN(t) - pos))
            blk(ex, s, d, 0, t, pos, m)
            outs.append((s, ("ret", m)))
        return outs
    S = r"^std::__cxx11::basic_string<(?:char|wchar_t)\b[^()]*>::"
    ex.add_contract(S + r"copy\(", scopy, "basic_string::copy", front=True)

    def append(ex, st, name, args, I):
        p, s = args[:2]
        dem = ex.mod.dem(name)
        t = str_get(ex, st, p)
        if re.search(r"append\((?:char|wchar_t) const\*, unsigned long\)$", dem):
            u, o, m = source(ex, st, s)
            n = bv(args[2], 64)
            ex.oblige(st, z3.And(z3.ULE(n, m), z3.ULE(o, m - n)), "block read inside the source")
            str_set(ex, st, p, simp(PUTS(t, u, o, n)))
        elif re.search(r"append\(unsigned long, (?:char|wchar_t)\)$", dem) and is_conc(s):
            for _ in range(int(s)):
                t = PUT(t, to32(args[2], ct))
            str_set(ex, st, p, t)
        else:
            return None
        return R(st, p)
    ex.add_contract(S + r"append\(", append, "basic_string::append", front=True)

    # C files: position in the text
    def fgetc(ex, st, name, args, I):
        f = args[0]
        k = ("file", f.obj)
        t, n = ex.files[f.obj]
        outs = []
        for s, more in split(ex, st, z3.ULT(st.g[k], n)):
            if more:
                c = unit(ct, t, s.g[k])
                s.g[k] = simp(s.g[k] + 1)
                outs.append((s, ("ret", c)))
            else:
                outs.append((s, ("ret", eofv(ct))))
        return outs

    def ungetc(ex, st, name, args, I):
        c, f = args
        k = ("file", f.obj)
        t, n = ex.files[f.obj]
        c = bv(c, 32)
        outs = []
        for s, e in split(ex, st, c == eofv(ct)):
            if e:
                outs.append((s, ("ret", eofv(ct))))
                continue
            ex.oblige(s, z3.And(z3.UGT(s.g[k], 0), c == unit(ct, t, s.g[k] - 1), toB(s.g[("unget", f.obj)])), "the character just read is put back, once")
            s.g[k] = simp(s.g[k] - 1)
            s.g[("unget", f.obj)] = False
            outs.append((s, ("ret", c)))
        return outs

    def fg(ex, st, name, args, I):
        r = fgetc(ex, st, name, args, I)
        for s, o in r:
            s.g[("unget", args[0].obj)] = True
        return r
    ex.files = {}
    wide = ct == "wchar_t"
    ex.add_contract(r"^(fgetwc|getwc|_IO_getwc)$" if wide else r"^(fgetc|getc|_IO_getc)$", fg, "fgetc/fgetwc")
    ex.add_contract(r"^ungetwc$" if wide else r"^ungetc$", ungetc, "ungetc/ungetwc")

    # adapters: user code
    ex.adap = {}

    def adfn(ex, st, fp, args, I):
        a = args[0]
        kind, t = ex.adap[a.obj]
        k = ("adp", a.obj)
        if kind == "in":
            i = st.g[k]
            if fp.d[0] == 0:
                st.g[k] = simp(i + 1)
                u = AT(t, i)
                return [(st, ("ret", simp(z3.Extract(8 * w - 1, 0, u)) if w < 4 else u))]
            if fp.d[0] == 1:
                n = bv(args[2], 64)
                blk(ex, st, args[1], 0, t, i, n)
                st.g[k] = simp(i + n)
                return [(st, ("ret", None))]
        else:
            if fp.d[0] == 0:
                st.g[k] = simp(PUT(st.g[k], to32(args[1], ct)))
                return [(st, ("ret", None))]
            if fp.d[0] == 1:
                u, o, m = source(ex, st, args[1])
                n = bv(args[2], 64)
                ex.oblige(st, z3.And(z3.ULE(n, m), z3.ULE(o, m - n)), "block read inside the source")
                st.g[k] = simp(PUTS(st.g[k], u, o, n))
                return [(st, ("ret", None))]
        raise Unsupported("adapter function %r" % (fp.d,))
    ex.abs_cmp[("call", "adfn")] = adfn
    for k in ("adp", "file", "dstJ"):
        ex.ghost_havoc[k] = lambda ex, v, k: ex.fresh(str(k[0]), v.sort() if z3.is_expr(v) and v.sort() == TXT else (32 if k[0] == "dstJ" else 64))
    ex.ghost_havoc["unget"] = lambda ex, v, k: ex.fresh("unget", "bool")
    ex.inv_pool = buf_pool(ex, ct)
    ex.measures = lambda ex, head: []
    return ex


def buf_pool(ex, ct):
    def pool(ex_, st, f, header, M):
        out = []
        gh = [m[1] for m in M if m[0] == "ghost"]
        cells = [m[1:] for m in M if m[0] == "cell" and m[3] == 8]

        def cell(s, c):
            v = ex.get_cells(s, c[0]).get(c[1], (0, None))
            return v[1] if v[0] == 8 and v[1] is not UNDEF and (is_conc(v[1]) or z3.is_bv(v[1])) else None
        cur = []
        for c in cells:
            v0 = cell(st, c)
            if v0 is not None:
                cur.append((ex.objs[c[0]].name + "+%d" % c[1], lambda s, c=c: None if cell(s, c) is None else bv(cell(s, c), 64), bv(v0, 64)))
        # the loop counter relative to its start value
        for nm, g, v0 in cur:
            dlt = lambda s, g=g, v0=v0: None if g(s) is None else g(s) - v0
            for bn, bound in getattr(ex, "bounds", []):
                out.append(("%s bounded by %s" % (nm, bn), lambda s, d=dlt, b=bound: None if d(s) is None else z3.ULE(d(s), b)))
            for k in gh:
                if not isinstance(k, tuple):
                    continue
                if k[0] in ("adp", "file") and z3.is_bv(st.g[k]):
                    out.append(("%s position moves with %s" % (k[0], nm), lambda s, k=k, d=dlt: None if d(s) is None else z3.And(s.g[k] == st.g[k] + d(s), z3.ULE(s.g[k], K(1 << 63)))))
                if k[0] == "file":
                    out.append(("inside the file", lambda s, k=k: z3.ULE(s.g[k], ex.files[k[1]][1])))
                if k[0] in ("adp", "str") and z3.is_expr(st.g[k]) and st.g[k].sort() == TXT:
                    for o, (t, n) in ex.chars.items():
                        out.append(("written so far", lambda s, k=k, d=dlt, t=t: None if d(s) is None else s.g[k] == PUTS(st.g[k], t, K(0), d(s))))
                if k[0] == "dstJ":
                    for so, p0 in ex.sources(st):
                        for off in (K(0), K(1)):
                            def G(s, k=k, d=dlt, so=so, p0=p0, off=off):
                                if d(s) is None:
                                    return None
                                return s.g[k] == z3.If(z3.And(z3.UGE(J, off), z3.ULT(J - off, d(s))), unit(ct, so, p0 + (J - off)), st.g[k])
                            out.append(("characters read so far (%d)" % off.as_long(), G))
        return out
    return pool


def base_contracts(ex):
    ex.add_contract(r"^std::basic_streambuf<\w+, .*>::(~?basic_streambuf)\(", lambda ex, st, name, args, I: R(st), "basic_streambuf ctor/dtor", front=True)


def construct(ex, st, cls, arg, size):
    """run the real constructor -> object pointer"""
    base = cls.split("<")[0].split("::")[-1]
    last = re.search(r"(\w+)(?:<[^<>]*>)?$", cls).group(1)
    rx = r"^configor::%s::%s\(" % (re.escape(cls), last)
    fns = [n for n, f in ex.mod.funcs.items() if f.defined and re.search(rx, ex.mod.dem(n))]
    if not fns:
        raise Unsupported("no constructor of " + cls)
    o = ex.alloc(st, last, size, "buf", lazy=True)
    outs = ex.exec_func(st, ex.mod.funcs[fns[0]], [o, arg])
    if len(outs) != 1 or outs[0][1][0] != "ret":
        raise Unsupported("constructor of %s" % cls)
    return outs[0][0], o, fns[0]


# ------------------------------------------------------------------ the entry points built on them
class EntryC(Contract):
    """an entry point that wraps a source or a target and hands it to the stream version exactly once"""
    mayfree = False

    def __init__(self, name, ct, form, ret, io):
        self.name, self.ct, self.form, self.ret, self.io = name, ct, form, ret, io

    def setups(self, ex):
        st = State()
        ct = self.ct
        t = z3.Const("t", TXT)
        self.D = z3.Const("DUMPED", TXT)
        self.thrown = z3.Bool("FAILS")
        opts = ex.alloc(st, "options", None, "options")
        self.opts, self.nopts = opts, z3.BitVec("nopts", 64)
        st.g["calls"] = 0
        args = []
        f = self.form
        if f == "string":
            a = ex.alloc(st, "text", 32, "string")
            st.g[("str", a.obj, 0)] = t
        elif f == "cstring":
            a = ex.alloc(st, "characters", None, "chars")
            ex.chars[a.obj] = (t, LEN(t))
            st.g[("cstr", a.obj)] = t
        elif f == "file":
            a = ex.alloc(st, "FILE", None, "file")
            ex.files[a.obj] = (t, LEN(t))
            st.g[("file", a.obj)] = K(0)
            st.g[("unget", a.obj)] = False
        elif f == "stream":
            a, q = ex.mk_stream(st)
            self.q = q
        else:
            a = None
        self.a, self.t = a, t
        self.c = self.sret = None
        if self.io == "out":
            self.c = ex.alloc(st, "value", 16, "value", lazy=True)
            if self.ret:
                self.sret = ex.alloc(st, "result", 32, "string", lazy=True)
                args.append(self.sret)
            if a is not None:
                args.append(a)
            args.append(self.c)
        else:
            if self.ret:
                self.sret = ex.alloc(st, "result", 16, "value", lazy=True)
                args.append(self.sret)
            else:
                self.c = ex.alloc(st, "value", 16, "value", lazy=True)
                args.append(self.c)
            args.append(a)
        yield "", st, args + [opts, self.nopts]

    def bind(self, ex, st, args):
        return True

    def frame_objs(self, ctx):
        return tuple(p.obj for p in (self.a, self.c, self.sret) if p is not None)

    def modifies(self, ctx):
        return [("g", "calls")]

    def cases(self, ex, st, ctx):
        once = ("handed on exactly once", lambda s, r: s.g["calls"] == 1)
        posts = [once]
        if self.io == "in" and self.ret:
            posts.append(("the value parsed is returned", lambda s, r: s.g.get(("parsed", self.sret.obj)) is True))
        if self.io == "out" and self.ret:
            posts.append(("the text dumped is returned", lambda s, r: str_get(ex, s, self.sret) == CATT(EMPTY, self.D)))
        if self.io == "out" and self.form == "string":
            posts.append(("appended to the text in the string", lambda s, r: str_get(ex, s, self.a) == CATT(self.t, self.D)))
        return [Case(z3.Not(self.thrown), ("ret", ANY), post=posts, name="returns"), Case(self.thrown, ("throw", "_ZTISt9exception"), post=[once], name="the error passes")]


def ctor_contracts(ex, classes):
    """new buffer objects remember what they stand for (the constructors are verified on their own)"""
    def h(ex, st, name, args, I):
        st.g[("over", args[0].obj, args[0].off)] = args[1]
        return R(st)
    for cls in classes:
        last = re.search(r"(\w+)(?:<[^<>]*>)?$", cls).group(1)
        ex.add_contract(r"^configor::%s::%s\(" % (re.escape(cls), last), h, cls + " constructor (starts at the first character)", trusted=False, front=True)
        ex.add_contract(r"^configor::%s::~%s\(" % (re.escape(cls), last), lambda ex, st, name, args, I: R(st), cls + " destructor", trusted=False, front=True)


def value_objects(ex):
    """default construction, move, copy and destruction of whole values (contracts of C10), seen as opaque"""
    def ctor(ex, st, name, args, I):
        for k in [k for k in st.g if k == ("parsed", args[0].obj)]:
            del st.g[k]
        if len(args) > 1 and isinstance(args[1], Ptr) and st.g.get(("parsed", args[1].obj)):
            st.g[("parsed", args[0].obj)] = True
        return R(st)
    B = r"^configor::basic_value<configor::\w+>::"
    ex.add_contract(B + r"basic_value\((\)|configor::basic_value<configor::\w+>(&&| const&)\))", ctor, "basic_value constructors (C10)", trusted=False, front=True)
    ex.add_contract(B + r"~basic_value\(\)", lambda ex, st, name, args, I: R(st), "~basic_value (C10)", trusted=False, front=True)
    ex.add_contract(B + r"(operator=|swap)\(", lambda ex, st, name, args, I: (ctor(ex, st, name, args, I), R(st, args[0]))[1], "basic_value assignment (C10)", trusted=False, front=True)


# ------------------------------------------------------------------ the stream versions: a worker object, options, one run
class StreamEntryC(Contract):
    """parse(value, stream, options) / dump(stream, value, options): a worker over the caller's buffer with the default
    encodings, every option applied to it once and in order, then one run"""
    mayfree = False

    def __init__(self, name, ct, io):
        self.name, self.ct, self.io = name, ct, io

    def setups(self, ex):
        st = State()
        self.thrown = z3.Bool("FAILS")
        n = self.nopts = z3.BitVec("nopts", 64)
        st.assume(z3.ULT(n, K(1 << 50)))
        self.opts = ex.alloc(st, "options", None, "options")
        st.g["calls"] = 0
        st.g["applied"] = K(0)
        sb = self.sb = ex.alloc(st, "buffer of the caller", None, "sbuf", lazy=True)
        self.a, self.q = ex.mk_stream(st, sb)
        self.c = ex.alloc(st, "value", 16, "value", lazy=True)
        args = [self.c, self.a] if self.io == "in" else [self.a, self.c]
        yield "", st, args + [self.opts, n]

    def bind(self, ex, st, args):
        return True

    def frame_objs(self, ctx):
        return (self.a.obj, self.c.obj)

    def modifies(self, ctx):
        return [("g", k) for k in ("calls", "applied")]

    def cases(self, ex, st, ctx):
        once = ("one run", lambda s, r: s.g["calls"] == 1)
        return [Case(z3.Not(self.thrown), ("ret", ANY), post=[once], name="returns"), Case(self.thrown, ("throw", "_ZTISt9exception"), post=[once], name="the error passes")]


def stream_entry(ex, c, decoder, encoder):
    """contracts around c: option calls and the run of the worker"""
    def opt(ex, st, name, args, I):
        f, w = args[:2]
        ex.oblige(st, z3.And(toB(isinstance(f, Ptr) and f.obj == c.opts.obj), bv(f.off, 64) == K(32) * st.g["applied"], z3.ULT(st.g["applied"], c.nopts)) if isinstance(f, Ptr) else False, "options are applied once each, in order")
        ex.oblige(st, st.g["calls"] == 0, "options are applied before the run")
        ready(ex, st, w)
        if st.g.get("worker") is None:
            st.g["worker"] = w
        ex.oblige(st, same(w, st.g["worker"]), "one worker")
        st.g["applied"] = simp(st.g["applied"] + 1)
        return R(st)

    def ready(ex, st, w):
        sts = [k for k in st.g if isinstance(k, tuple) and len(k) == 4 and k[0] == "ios" and k[1] == w.obj and k[3] == "rdbuf"]
        ex.oblige(st, len(sts) == 1 and same(st.g[sts[0]], c.sb), "the worker uses the caller's buffer")
        if sts:
            import stdlib
            ex.oblige(st, toB(stdlib.good(st, Ptr(w.obj, sts[0][2]))), "the worker's stream is good")
        fns = [ex.mod.dem(x[1].name) for x in ex.get_cells(st, w.obj).values() if isinstance(x[1], Fn)]
        for k, rx in (("decoder", decoder), ("encoder", encoder)):
            ex.oblige(st, any(re.search(rx, f) for f in fns), "default %s" % k)

    def run(ex, st, name, args, I):
        w, v = args[:2]
        ready(ex, st, w)
        ex.oblige(st, same(v, c.c), "the caller's value")
        ex.oblige(st, st.g["applied"] == c.nopts, "every option was applied")
        if st.g.get("worker") is not None:
            ex.oblige(st, same(w, st.g["worker"]), "the worker that got the options runs")
        st.g["calls"] += 1
        return [(s, ("throw", ex.make_exc(s, "_ZTISt9exception")) if bad else ("ret", None)) for s, bad in split(ex, st, c.thrown)]
    ex.add_contract(r"^std::function<void ?\(configor::detail::json_(?:parser|serializer)<.*>&\)>::operator\(\)\(", opt, "std::function call (an option, by C06/C19 contracts)", front=True)
    ex.add_contract(r"^configor::detail::basic_(?:parser<.*>::parse|serializer<.*>::dump)\(", run, "worker parse()/dump()", trusted=False, front=True)
    ex.ghost_havoc["applied"] = lambda ex, v, k: ex.fresh("applied", 64)
    old = ex.inv_pool

    def pool(ex_, st, f, header, M):
        out = list(old(ex_, st, f, header, M)) if old else []
        for m in M:
            if m[0] != "cell":
                continue
            o, off = m[1], m[2]

            def G(s, o=o, off=off):
                v = ex.get_cells(s, o).get(off, (0, None))[1]
                if isinstance(v, Ptr) and v.obj == c.opts.obj:
                    return z3.And(bv(v.off, 64) == K(32) * s.g["applied"], z3.ULE(s.g["applied"], c.nopts))
                if v is not UNDEF and v is not None and (is_conc(v) or z3.is_bv(v)) and bv(v, 64 if is_conc(v) else v.size()).size() == 64:
                    return z3.And(bv(v, 64) == s.g["applied"], z3.ULE(s.g["applied"], c.nopts))
                return None
            if G(st) is not None:
                out.append(("position in the options", G))
        return out
    ex.inv_pool = pool
