"""C19: the state of the caller's streams."""
import z3
from dumper import *
from dumper import WholeC, INST, SER, BASE_FLAGS, classic_numbers
from dumper import stream_ok, wreck, whole_executor
from lexer import DESER
from scalars import run_number, run_string
from C08 import run_doc
from harness import Target, harvest
from models import mk_istream
from stdlib import good, F_DEC, F_SKIPWS

PROP = "C19"
FIELDS = ("eof", "fail", "bad", "width", "prec", "flags", "fill", "loc")


class StateC(WholeC):
    """a dump to a stream in any state whatever: only its width changes, to 0, whether the dump succeeds or fails"""

    def __init__(self, D, S, kind):
        WholeC.__init__(self, D, S, kind)
        self.name = "stream after dump (%s)<%s,%s>" % (kind, S.val, S.tgt)

    def setups(self, ex):
        for n, st, args in WholeC.setups(self, ex):
            keep = [f for f in st.pc if not any(str(x) in ("width", "osfill", "fillc") for x in z3util_vars(f))]
            st.pc[:] = keep
            st.g["dumped"] = 0
            self.stop = z3.Bool("FAILS")
            yield "", st, args

    def modifies(self, x):
        return WholeC.modifies(self, x) + [("g", "dumped")]

    def cases(self, ex, st, x):
        post = [("the width is cleared", lambda s, r: bv(iget(s, self.q, "width"), 64) == 0), ("the value is dumped once", lambda s, r: s.g["dumped"] == 1)]
        return [Case(self.stop, ("throw", SER), post=post, name="the dump fails"), Case(z3.Not(self.stop), ("ret", ANY), post=post, name="the dump succeeds")]


def z3util_vars(f):
    out, todo, seen = set(), [f], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(e)
        todo += e.children()
    return out


def run_state(kind, tgt, val):
    def run(mod):
        ex, D, S, c = whole_executor(mod, tgt, val, False)
        w = StateC(D, S, kind)

        def dd(ex, st, name, args, I):
            S.attach(st, args[0])
            ex.oblige(st, S.q.obj != w.q.obj or S.q.off != w.q.off, "the dump has a stream of its own")
            ex.oblige(st, stream_ok(st, S.q), "numbers are written decimal, without padding, sign or grouping, whatever the caller's stream")
            st.g["dumped"] += 1
            outs = []
            for s, bad in split(ex, st, w.stop):
                s.g[S.sink] = ex.fresh("text", TXT)
                wreck(ex, s, S.q)
                outs.append((s, ("throw", ex.make_exc(s, SER)) if bad else ("ret", None)))
            return outs
        base = r"^configor::detail::(?:json|basic)_serializer<configor::basic_value<.*>, \w+>::"
        ex.add_contract(base + r"do_dump\(", dd, "do_dump(): writes through its own stream, or throws (C06, C08)", trusted=False, front=True)
        pre = "x" if tgt != val else "w" if tgt == "wchar_t" else ""
        fn = find(mod, r"^drv::%sdump_%s(\[abi:cxx11\])?\(" % (pre, kind))
        w.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


class ReadC(Contract):
    """parsing from a stream in any state whatever"""
    mayfree = False

    def __init__(self, form, src, val):
        self.form, self.src, self.val = form, src, val
        self.name = "parse (%s)<%s,%s>" % (form, val, src)

    def setups(self, ex):
        st = State()
        sb = self.sb = ex.alloc(st, "buffer of the caller", None, "sbuf", lazy=True)
        self.a, self.q = mk_istream(ex, st, self.src, sb)
        for f in ("eof", "fail", "bad"):
            iset(st, self.q, f, z3.Bool("caller_" + f))
        for f, w in (("width", 64), ("prec", 64), ("flags", 32), ("fill", CHARW[self.src])):
            iset(st, self.q, f, z3.BitVec("caller_" + f, w))
        iset(st, self.q, "loc", Abs("locale", "of-caller"))
        self.flags = z3.BitVec("caller_flags", 32)
        self.c = ex.alloc(st, "value", 16, "value", lazy=True)
        st.g["calls"], st.g["skipped"], st.g["caught"] = 0, False, ()
        self.stop = z3.Bool("FAILS")
        yield "", st, [self.c, self.a]

    def bind(self, ex, st, args):
        return True

    def frame_objs(self, x):
        return (self.c.obj,)

    def modifies(self, x):
        r = [("g", "calls"), ("g", "caught"), ("g", "skipped")]
        if self.form == "wrap":     # a stream extraction sets the state bits like any other
            r += [("g", ("ios", self.q.obj, self.q.off, f)) for f in ("eof", "fail")]
        return r

    def cases(self, ex, st, x):
        once = ("the document is parsed once", lambda s, r: s.g["calls"] == 1)
        if self.form == "stream":
            skip = ("no white space is skipped", lambda s, r: z3.BoolVal(not s.g["skipped"]))
            return [Case(self.stop, ("throw", DESER), post=[once, skip], name="the parser fails"), Case(z3.Not(self.stop), ("ret", ANY), post=[once, skip], name="the parser succeeds")]
        g = good(st, self.q)
        g = z3.BoolVal(g) if isinstance(g, bool) else g
        ends = z3.And((self.flags & F_SKIPWS) != 0, z3.Bool("only_white_space_left"))
        bits = ("the state bits are as before", lambda s, r: z3.And([toB(iget(s, self.q, f)) == z3.Bool("caller_" + f) for f in ("eof", "fail")]))
        none = ("nothing is parsed", lambda s, r: s.g["calls"] == 0)
        failed = ("the stream has failed", lambda s, r: toB(iget(s, self.q, "fail")))
        return [Case(z3.Or(z3.Not(g), ends), ("ret", ANY), post=[none, failed], name="not a good stream, or nothing but white space"),
                Case(z3.And(g, z3.Not(ends), self.stop), ("throw", DESER), post=[once, bits], name="the parser fails"),
                Case(z3.And(g, z3.Not(ends), z3.Not(self.stop)), ("ret", ANY), post=[once, bits], name="the parser succeeds")]


def run_read(form, src, val):
    def run(mod):
        ex = new_executor(mod, "", fpmode="fp")
        c = ReadC(form, src, val)

        def parse(ex, st, name, args, I):
            w, v = args[:2]
            ks = [k for k in st.g if isinstance(k, tuple) and len(k) == 4 and k[0] == "ios" and k[1] == w.obj and k[3] == "rdbuf"]
            ex.oblige(st, len(ks) == 1 and same(st.g[ks[0]], c.sb), "the parser has a stream of its own over the caller's buffer")
            q = Ptr(w.obj, ks[0][2])
            ex.oblige(st, toB(good(st, q)), "the parser's stream is good, whatever the caller's")
            fl = iget(st, q, "flags")
            fl = simp(fl)
            if is_conc(fl) and int(fl) == F_DEC | F_SKIPWS:
                pass                                  # characters are read unformatted
            else:
                ex.oblige(st, bv(fl, 32) == F_DEC, "the format flags of the parser's stream do not depend on the caller's")
            ex.oblige(st, z3.And(bv(iget(st, q, "width"), 64) == 0, bv(iget(st, q, "prec"), 64) == 6), "width and precision of the parser's stream do not depend on the caller's")
            ex.oblige(st, z3.BoolVal(classic_numbers(iget(st, q, "loc"))), "numbers are read in the classic format, whatever the caller's locale")
            ex.oblige(st, same(v, c.c), "the caller's value is filled")
            fns = [ex.mod.dem(x[1].name) for x in ex.get_cells(st, w.obj).values() if isinstance(x[1], Fn)]
            for op, ct in (("decode", src), ("encode", val)):
                ex.oblige(st, any(re.match(r"configor::encoding::auto_utf<%s>::%s\(" % (ct, op), f) for f in fns), "the default encoding is used (%s)" % op)
            st.g["calls"] += 1
            return [(s, ("throw", ex.make_exc(s, DESER)) if bad else ("ret", None)) for s, bad in split(ex, st, c.stop)]
        ex.add_contract(r"^configor::detail::basic_parser<.*>::parse\(", parse, "basic_parser::parse(): reads through its own stream (C02-C06)", trusted=False, front=True)
        pre = "x" if src != val else "w" if src == "wchar_t" else ""
        fn = find(mod, r"^drv::%sparse_%s\(" % (pre, form))
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


def targets(tier):
    out = []
    for t, v in INST:
        for k in ("plain", "indent", "wrap", "escape", "precision"):
            out.append(Target("stream after dump %s<%s,%s>" % (k, v, t), "api.cpp", run_state(k, t, v)))
        for f in ("stream", "wrap"):
            out.append(Target("parse %s<%s,%s>" % (f, v, t), "api.cpp", run_read(f, t, v)))
    for t, v in INST:       # the contracts the dump rests on: they keep the serializer's stream fit for numbers
        for w in ("put_integer", "put_float"):
            out.append(Target("%s<%s,%s>" % (w, v, t), "dump.cpp", run_number(w, t, v), limit=600))
        out.append(Target("put_string<%s,%s>" % (v, t), "dump.cpp", run_string(t, v), limit=600))
        for p in (False, True):
            out.append(Target("do_dump<%s,%s> %s" % (v, t, "indented" if p else "compact"), "dump.cpp", run_doc(t, v, p), limit=600))
    return out + wholes(("plain", "indent", "wrap", "str", "escape", "precision"), ("codecs", "escaping", "format"), pretty=(False,))


REPLAY = ("dump.cpp", ["C19"])
REPLAY_BOUND = "native cross-check: dumps and parses of random trees, numbers and documents through streams with hex, showbase, showpos, uppercase, showpoint, boolalpha, adjustment, grouping and comma locale, widths (also beyond 255 and negative), fills and precisions, 8000 random stream states (60000 in thorough); three instantiations; results and the streams' state compared"
ASSUMPTIONS = ["The parser and the serializer reach the caller's stream only through its rdbuf() (their own stream is built on it): basic_parser::parse and do_dump are under the contracts of C02-C06 and C07-C09.",
               "The facets other than numeric of the caller's locale (collate, ctype) are not consulted by the built-in encodings.",
               "std::basic_ios, std::ios_base, std::basic_istream and std::basic_ostream members, the stream sentries and std::function options: contracts in engine/stdlib.py.",
               "Which characters a stream extraction skips as white space is the library's business (the property allows it).",
               "A sink or source that fails is outside this property (C16, C17)."]
BUDGET = 600
