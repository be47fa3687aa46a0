"""C06: errors and error handlers."""
import z3
from tokens import *
from tokens import token_executor, mk_tparser
from lexer import run_fails, virt, field, Lexing, lex_executor, lex_state, install_codecs
from stdlib import iset, R, split
from harness import Target, harvest
import C05

PROP = "C06"
SER = "_ZTIN8configor28configor_serialization_errorE"
INST = C05.INST
VA = {"char": "value_tplargs", "wchar_t": "wvalue_tplargs"}


# ------------------------------------------------------------------ an arbitrary error handler
def mk_handler(ex, st, tag="handler"):
    """an error_handler of unknown class: a call counts, records the exception it was given, returns or throws"""
    vt = ex.alloc(st, "vtable of the handler", 256, "handler vtable")
    for i in range(8):
        ex.store(st, Ptr(vt.obj, 8 * i), PTR, Abs("ehfn", i))
    h = ex.alloc(st, tag, 64, "handler")
    ex.store(st, Ptr(h.obj, 0), PTR, Ptr(vt.obj, 0))
    st.g["handled"], st.g["handled_ti"], st.g["hthrew"] = 0, None, False

    def call(ex, st, fp, args, I):
        ex.oblige(st, isinstance(args[0], Ptr) and args[0].obj == h.obj, "the installed handler is called on itself")
        e = args[1]
        e = ex.load(st, e, PTR) if isinstance(e, Ptr) else e
        if not (isinstance(e, Abs) and e.kind == "eptr"):
            raise Unsupported("handler called with %r" % (e,))
        st.g["handled"] = st.g["handled"] + 1
        st.g["handled_ti"] = st.g.get(("exc", e.d[0])) if e.d[0] is not None else None
        s2 = st.copy()
        s2.g["hthrew"] = True
        return [(st, ("ret", None)), (s2, ("throw", ex.make_exc(s2, "HANDLER")))]
    ex.abs_cmp[("call", "ehfn")] = call
    return h


class WrapC(Contract):
    """parse(c) / dump(v): the outcome of the work, passed to the handler or the caller"""

    def __init__(self, name, err):
        self.name, self.err = name, err

    def wrap_cases(self, ok, post_ok, handler):
        def handled(n):
            return ("handler calls", lambda s, r: s.g["handled"] == n)
        out = [Case(ok, ("ret", ANY), post=post_ok + ([handled(0)] if handler else []), name="success")]
        bad = z3.Not(ok)
        if not handler:
            out.append(Case(bad, ("throw", self.err), name="error reaches the caller"))
        else:
            out.append(Case(bad, None, post=[handled(1), ("the handler receives the error", lambda s, r: self.err in (ANY, s.g["handled_ti"]) or self.err in self.ex.ti_bases(s.g["handled_ti"]))], name="error reaches the handler"))
        return out

    def check_out(self, ex, st0, s, o, ctx, cases, label, hit):
        self.ex = ex
        for c in cases:
            if c.out is None or c.name.endswith("the handler"):
                c.out = ("throw", "HANDLER") if s.g.get("hthrew") else ("ret", ANY)
        Contract.check_out(self, ex, st0, s, o, ctx, cases, label, hit)


class PrepC(Lexing):
    """prepare_scan() reads the first character: afterwards the lexer stands at position 0"""

    def setups(self, ex):
        st = State()
        o = self.parser(ex, st)
        st.assume(self.p0 == 0)
        L = self.L
        P = L.P[o.obj]
        q = Ptr(o.obj, P["ios"])
        st2 = State()
        for f in ("eof", "fail", "bad"):
            iset(st, q, f, False)
        st.g[("lexk", o.obj)] = z3.IntVal(0)
        st.g[("lexpos", o.obj)] = None
        ex.store(st, Ptr(o.obj, P["cur"]), IntTy(32), ex.fresh("garbage", 32))
        st.pc[:] = [z3.And(L.N >= 0, self.p0 == 0)]
        yield "", st, [o]

    def cases(self, ex, st, ctx):
        L = self.L
        bad = z3.And(L.N == 0, L.BAD)
        return [Case(bad, ("throw", DESER), name="first character undecodable"), Case(z3.Not(bad), ("ret", ANY), post=self.at(0), name="at the first character")]


def run_prepare(src, val):
    def run(mod):
        ex, L = lex_executor(mod, src, val)
        for n, c in ex.nexts:        # at the very start the body itself is executed
            ex.drop_contract(n)
        fn = virt(mod, src, val, "prepare_scan")
        c = PrepC("json_parser<%s,%s>::prepare_scan" % (val, src), L, src, val)
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


class ParseAll(WrapC):
    def __init__(self, T, src, val):
        WrapC.__init__(self, "parse<%s,%s>" % (val, src), DESER)
        self.T, self.src, self.val = T, src, val

    def setups(self, ex):
        T = self.T
        for h in (False, True):
            st = State()
            self.h = h
            eh = mk_handler(ex, st) if h else NULL
            o = mk_tparser(ex, st, self.src, self.val, eh)
            c = ex.values.new(st, z3.Const("old", V), "target")
            st.g["prep"] = False
            tok_state(ex, T, st, z3.Int("junk"))
            self.c = c
            yield "with a handler" if h else "without a handler", st, [o, c]

    def bind(self, ex, st, args):
        return True

    def modifies(self, ctx):
        return [("g", k) for k in ("tpos", "tpend", "tlast", "prep", "handled", "handled_ti", "hthrew", "caught")]

    def frame_objs(self, ctx):
        return (self.c.obj,)

    def cases(self, ex, st, ctx):
        T = self.T
        e = T.PE(z3.IntVal(0))
        ok = z3.And(z3.Not(T.PREPBAD), e >= 0, T.TOK(e) == z3.BitVecVal(T.E["end_of_input"], 32), T.TEND(e) >= 0)
        return self.wrap_cases(ok, [("value", lambda s, r: ex.values.rep(s, self.c) == T.PV(z3.IntVal(0)))], self.h)


def run_parse(src, val):
    def run(mod):
        ex, T, c = C05.parse_executor(mod, src, val)
        T.PREPBAD = z3.Bool("PREPBAD")

        def prep(ex, st, name, args, I):
            outs = []
            for s, bad in split(ex, st, T.PREPBAD):
                if bad:
                    outs.append((s, ("throw", ex.make_exc(s, DESER))))
                else:
                    s.g["tpos"], s.g["tpend"], s.g["tlast"], s.g["prep"] = z3.IntVal(0), False, z3.IntVal(0), True
                    s.assume(T.N >= 0)
                    outs.append((s, ("ret", None)))
            return outs
        ex.add_contract(r"^configor::detail::(?:json|basic)_parser<.*>::prepare_scan\(\)$", prep, "prepare_scan() (C06)", trusted=False, front=True)
        fn = find(mod, r"^configor::detail::basic_parser<configor::basic_value<configor::%s>, %s>::parse\(" % (VA[val], src))
        w = ParseAll(T, src, val)
        w.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


def parse_targets():
    out = []
    for src, val in INST:
        out.append(Target("parse<%s,%s>" % (val, src), "json.cpp", run_parse(src, val)))
        out.append(Target("prepare_scan<%s,%s>" % (val, src), "json.cpp", run_prepare(src, val)))
    return out


def targets(tier):
    return parse_targets()


# ------------------------------------------------------------------ the policies
class PolicyC(Contract):
    """handle(e) of the three policies, for any exception (or none)"""

    KINDS = ["_ZTIN8configor30configor_deserialization_errorE", "_ZTIN8configor28configor_serialization_errorE", "_ZTIN8configor19configor_type_errorE",
             "_ZTIN8configor20configor_invalid_keyE", "_ZTIN8configor25configor_invalid_iteratorE"]

    def __init__(self, policy):
        self.name, self.policy = "error_handler_with<%s>::handle" % policy, policy
        self.mayfree = False

    def setups(self, ex):
        for ti in self.KINDS + ["_ZTISt9bad_alloc"] + ([None] if self.policy != "strict" else []):
            st = State()
            h = ex.alloc(st, "handler", 64, "handler", lazy=True)
            st.g[("str", h.obj, 8)] = self.old = z3.Const("old_message", TXT)
            a = ex.alloc(st, "eptr", 8, "arg")
            self.e = self.w = None
            if ti:
                p = ex.make_exc(st, ti)
                vt = ex.alloc(st, "vtable of the exception", 64, "exvt")
                for i in range(4):
                    ex.store(st, Ptr(vt.obj, 8 * i), PTR, Abs("exfn", i))
                ex.store(st, Ptr(p.obj, 0), PTR, Ptr(vt.obj, 0))
                self.e, self.w = p, z3.Const("what", TXT)
            ex.store(st, Ptr(a.obj, 0), PTR, Abs("eptr", self.e.obj if self.e else None))
            self.ti, self.h = ti, h
            yield ti or "no exception", st, [h, a]

    def bind(self, ex, st, args):
        return True

    def frame_objs(self, ctx):
        return (self.h.obj,)

    def modifies(self, ctx):
        return [("g", "rethrown")]

    def cases(self, ex, st, ctx):
        known = self.ti in self.KINDS
        msg = lambda s, r: str_get(ex, s, Ptr(self.h.obj, 8)) == (self.w if known and self.policy == "record" else self.old)
        same_exc = ("the very exception that was passed", lambda s, r: r.obj == self.e.obj)
        if self.policy == "strict":
            return [Case(True, ("throw", self.ti), post=[same_exc], name="rethrows the error")]
        if self.policy == "ignore":
            return [Case(True, ("ret", ANY), post=[("nothing else happens", lambda s, r: True)], name="drops the error")]
        if known or self.ti is None:
            return [Case(True, ("ret", ANY), post=[("message", msg)], name="keeps the message")]
        return [Case(True, ("throw", self.ti), post=[same_exc, ("message", msg)], name="foreign exceptions pass through")]


def run_policy(policy, num):
    def run(mod):
        ex = new_executor(mod, "")

        def call(ex, st, fp, args, I):
            if fp.d[0] != 2:
                raise Unsupported("virtual function %r of an exception" % (fp.d,))
            return R(st, Abs("zstr", c.w))
        ex.abs_cmp[("call", "exfn")] = call
        rx = r"^configor::error_handler_with<\(configor::error_policy\)%d>::handle\(" % num
        fn = find(mod, rx)
        c = PolicyC(policy)
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


class DumpAll(WrapC):
    def __init__(self, src, val, BAD):
        WrapC.__init__(self, "dump<%s,%s>" % (val, src), SER)
        self.src, self.val, self.BAD = src, val, BAD

    def setups(self, ex):
        for h in (False, True):
            st = State()
            self.h = h
            eh = mk_handler(ex, st) if h else NULL
            cls = "json_serializer<configor::basic_value<configor::%s>, %s>" % (VA[self.val], self.src)
            o = ex.alloc(st, "serializer", ex.mod.class_size(cls), "serializer", lazy=True)
            vt = [g for g in ex.mod.globals if g.startswith("_ZTV") and ex.mod.demg(g).endswith("configor::detail::" + cls)]
            if not vt:
                raise Unsupported("no vtable of " + cls)
            ex.store(st, Ptr(o.obj, 0), PTR, Ptr(ex.global_ptr(vt[0]).obj, 16))
            ex.store(st, Ptr(o.obj, field(ex.mod.members(cls), "err_handler_")), PTR, eh)
            c = ex.alloc(st, "value", 16, "value", lazy=True)
            st.g["work"], st.g["finished"] = 0, 0
            self.c = c
            yield "with a handler" if h else "without a handler", st, [o, c]

    def bind(self, ex, st, args):
        return True

    def modifies(self, ctx):
        return [("g", k) for k in ("work", "finished", "handled", "handled_ti", "hthrew", "caught")]

    def cases(self, ex, st, ctx):
        return self.wrap_cases(z3.Not(self.BAD), [("the value is dumped once", lambda s, r: s.g["work"] == 1), ("the end is announced", lambda s, r: s.g["finished"] <= 1)], self.h)


def run_dump(src, val):
    def run(mod):
        ex = new_executor(mod, "")
        BAD = z3.Bool("DUMPBAD")
        base = r"^configor::detail::(?:json|basic)_serializer<configor::basic_value<.*>, \w+>::"

        def dd(ex, st, name, args, I):
            ex.oblige(st, same(args[1], c.c), "the value passed to dump() is dumped")
            outs = []
            st.g["work"] += 1
            for s, bad in split(ex, st, BAD):
                outs.append((s, ("throw", ex.make_exc(s, SER)) if bad else ("ret", None)))
            return outs

        def nx(ex, st, name, args, I):
            ex.oblige(st, args[1] == ex.mod.enum("token_type")["end_of_input"] if is_conc(args[1]) else False, "only the end of input is announced")
            st.g["finished"] += 1
            return [(st, ("ret", None))]
        ex.add_contract(base + r"do_dump\(", dd, "do_dump(): returns, or throws a serialization error (C07-C09)", trusted=False, front=True)
        ex.add_contract(base + r"next\(", nx, "next(end_of_input) (C08)", trusted=False, front=True)
        fn = find(mod, base + r"dump\(")
        fn = find(mod, r"^configor::detail::basic_serializer<configor::basic_value<configor::%s>, %s>::dump\(" % (VA[val], src))
        c = DumpAll(src, val, BAD)
        c.verify(ex, fn)
        return harvest(ex, [mod.dem(fn)])
    return run


def targets(tier):
    return parse_targets() + C05.targets(tier, full=False) + [Target("fail", "json.cpp", run_fails(INST))] + [Target("policy " + p, "json.cpp", run_policy(p, n)) for p, n in (("strict", 1), ("record", 2), ("ignore", 3))] + \
        [Target("dump<%s,%s>" % (v, t), "dump.cpp", run_dump(t, v)) for t, v in INST]


REPLAY = ("errors.cpp", [])
REPLAY_BOUND = "native cross-check: malformed documents (all short ones, single-character damage to four documents), undumpable values; no handler, counting and throwing handlers, the three policies"
ASSUMPTIONS = ["An installed error handler either returns or throws, and does not touch the parser or serializer.",
               "The token-level and text-level contracts of C02-C05 and C07-C09 say where errors arise; this property adds how they travel."]
