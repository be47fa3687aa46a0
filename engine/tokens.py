"""Parser above the lexer: scan() and the getters are used through token-level contracts (their code is verified against the
character-level definitions of these tokens under C02, C03 and C04)."""
import re
import z3
from llir import Unsupported, PTR, IntTy, Ty
from sym import Ptr, NULL, Abs, Fn, UNDEF, State, simp, same, toB, bv, is_conc
from stdlib import TXT, EMPTY, LEN, CATT, R, str_get, str_set, split
from vc import Contract, Case, ANY
from models import new_executor, find
from values import *
from values import Values
from lexer import class_of, field, DESER, virt

I, B32 = z3.IntSort(), z3.BitVecSort(32)


class Tok:
    """TOK(p): token at position p (after white space); TEND(p): position behind it, -1 if it is malformed"""

    def __init__(self, ex):
        self.ex = ex
        F = z3.Function
        self.E = E = ex.mod.enum("token_type")
        self.TOK, self.TEND = F("TOK", I, B32), F("TEND", I, I)
        self.N = z3.Int("N")
        self.TX, self.IV, self.FV = F("TX", I, TXT), F("IV", I, B64), F("FV", I, z3.Float64())
        self.PE, self.PV = F("PE", I, I), F("PV", I, V)
        self.AE, self.AV = F("AE", I, I), F("AV", SEQ, I, SEQ)
        self.OE, self.OV = F("OE", I, I), F("OV", OBJ, I, OBJ)
        TOK, TEND, N = self.TOK, self.TEND, self.N
        PE, PV, AE, AV, OE, OV = self.PE, self.PV, self.AE, self.AV, self.OE, self.OV
        k = lambda n: z3.BitVecVal(E[n], 32)
        If, And, Or = z3.If, z3.And, z3.Or
        valid = [x for x in E if x != "uninitialized"]
        self.start = lambda t: Or([t == k(x) for x in ("literal_true", "literal_false", "literal_null", "value_string", "value_integer", "value_float", "begin_array", "begin_object")])
        ex.th.lemma(TOK, lambda t: [Or([t == k(x) for x in valid])])
        ex.th.lemma(TEND, lambda t: [If(TOK(t.arg(0)) == k("end_of_input"), Or(t == -1, And(t >= t.arg(0), t <= N)), Or(t == -1, And(t > t.arg(0), t <= N)))])
        th = ex.th
        bad = lambda p: TEND(p) < 0
        th.define(PE, lambda p: If(p < 0, -1, If(bad(p), -1, If(TOK(p) == k("begin_array"), AE(TEND(p)), If(TOK(p) == k("begin_object"), OE(TEND(p)), If(self.start(TOK(p)), TEND(p), -1))))))
        def pv(p):
            t = TOK(p)
            r = V.vnull
            for nm, v in (("literal_true", V.vbool(True)), ("literal_false", V.vbool(False)), ("value_string", V.vstr(self.TX(p))), ("value_integer", V.vint(self.IV(p))),
                          ("value_float", V.vflt(self.FV(p))), ("begin_array", V.varr(AV(SEMPTY, TEND(p)))), ("begin_object", V.vobj(OV(OEMPTY, TEND(p))))):
                r = If(t == k(nm), v, r)
            return r
        th.define(PV, pv)
        def after(p, sep, end, nxt, fin):
            """after an element that ended at p"""
            return If(p < 0, -1 if fin is None else fin, If(And(TOK(p) == k(sep), TEND(p) >= 0), nxt, If(And(TOK(p) == k(end), TEND(p) >= 0), TEND(p) if fin is None else fin, -1 if fin is None else fin)))
        th.define(AE, lambda p: If(p < 0, -1, If(self.start(TOK(p)), after(PE(p), "value_separator", "end_array", AE(TEND(PE(p))), None),
                                                 If(TOK(p) == k("end_array"), TEND(p), -1))))
        th.define(AV, lambda s, p: If(And(p >= 0, self.start(TOK(p))), after(PE(p), "value_separator", "end_array", AV(SNOC(s, PV(p)), TEND(PE(p))), SNOC(s, PV(p))), s))
        # member: key, colon, value
        def mem(p):
            c = TEND(p)
            v = TEND(c)
            ok = And(p >= 0, TOK(p) == k("value_string"), c >= 0, TOK(c) == k("name_separator"), v >= 0)
            return ok, v
        def oe(p):
            ok, v = mem(p)
            return If(ok, after(PE(v), "value_separator", "end_object", OE(TEND(PE(v))), None), If(And(p >= 0, TOK(p) == k("end_object")), TEND(p), -1))
        def ov(o, p):
            ok, v = mem(p)
            n = OINS(o, self.TX(p), PV(v))
            return If(ok, after(PE(v), "value_separator", "end_object", OV(n, TEND(PE(v))), n), o)
        th.define(OE, oe)
        th.define(OV, ov)

    def pos(self, st):
        return st.g["tpos"]


def token_executor(mod, src, val):
    ex = new_executor(mod, "", fpmode="fp")
    ex.merge = True
    ex.eager = True
    ex.rounds = 3
    ex.keep_kinds = ("value",)
    Values(ex)
    T = Tok(ex)
    ex.tok = T
    cls = class_of(src, val)
    E = T.E
    k = lambda n: z3.BitVecVal(E[n], 32)
    base = r"configor::detail::(?:json|basic)_parser<configor::basic_value<.*>, \w+>::"
    ex.ghost_havoc["tpend"] = lambda ex, v, k: ex.fresh("pend", "bool")
    ex.ghost_havoc["tlast"] = lambda ex, v, k: ex.fresh("last", "int")
    ex.ghost_havoc["tpos"] = lambda ex, v, k: ex.fresh("pos", "int")

    def scan(ex, st, name, args, I):
        p = st.g["tpos"]
        outs = []
        for s, pend in split(ex, st, st.g["tpend"]):
            if pend:
                outs.append((s, ("ret", T.TOK(s.g["tlast"]))))
                continue
            for s2, isstr in split(ex, s, T.TOK(p) == k("value_string")):
                if isstr:
                    s2.g["tpend"], s2.g["tlast"] = True, p
                    outs.append((s2, ("ret", T.TOK(p))))
                    continue
                for s3, bad in split(ex, s2, T.TEND(p) < 0):
                    if bad:
                        outs.append((s3, ("throw", ex.make_exc(s3, DESER))))
                    else:
                        s3.g["tlast"], s3.g["tpos"] = p, simp(T.TEND(p))
                        outs.append((s3, ("ret", T.TOK(p))))
        return outs
    ex.add_contract("^" + base + r"scan\(\)$", scan, "scan() at token level (C02-C04)", trusted=False, front=True)

    def getter(kind, f):
        def h(ex, st, name, args, I):
            t = st.g["tlast"]
            ex.oblige(st, T.TOK(t) == k(kind), "%s is called for a %s token" % (name, kind))
            f(ex, st, args[1], t)
            return R(st)
        return h

    def get_int(ex, st, p, t):
        ex.store(st, p, IntTy(64), T.IV(t))

    def get_float(ex, st, p, t):
        ex.store(st, p, Ty("double"), T.FV(t))

    def get_string(ex, st, name, args, I):
        t = st.g["tlast"]
        ex.oblige(st, z3.And(toB(st.g["tpend"]), T.TOK(t) == k("value_string")), "get_string is called for a string token")
        outs = []
        for s, bad in split(ex, st, T.TEND(t) < 0):
            if bad:
                str_set(ex, s, args[1], ex.fresh("partial", TXT))
                outs.append((s, ("throw", ex.make_exc(s, DESER))))
            else:
                x = str_get(ex, s, args[1])
                str_set(ex, s, args[1], T.TX(t) if x.eq(EMPTY) else CATT(x, T.TX(t)))
                s.g["tpend"], s.g["tpos"] = False, simp(T.TEND(t))
                outs.append((s, ("ret", None)))
        return outs
    ex.add_contract("^" + base + r"get_integer\(", getter("value_integer", get_int), "get_integer() at token level (C03)", trusted=False, front=True)
    ex.add_contract("^" + base + r"get_float\(", getter("value_float", get_float), "get_float() at token level (C03)", trusted=False, front=True)
    ex.add_contract("^" + base + r"get_string\(", get_string, "get_string() at token level (C02)", trusted=False, front=True)

    def fail(ex, st, name, args, I):
        return [(st, ("throw", ex.make_exc(st, DESER)))]
    ex.add_contract(r"^(?:void )?" + base + r"fail(?:<.*>)?\(", fail, "fail() throws configor_deserialization_error (C04)", trusted=False, front=True)
    value_dtor(ex)
    value_copy(ex)
    return ex, T


def tok_state(ex, T, st, p, last=None):
    st.g["tpos"], st.g["tpend"], st.g["tlast"] = p, False, p if last is None else last
    st.assume(z3.And(p >= 0, p <= T.N))


def mk_tparser(ex, st, src, val, eh=None):
    cls = class_of(src, val)
    o = ex.alloc(st, "parser", ex.mod.class_size(cls), "parser", lazy=True)
    vt = [g for g in ex.mod.globals if g.startswith("_ZTV") and ex.mod.demg(g).endswith("configor::detail::" + cls)]
    if not vt:
        raise Unsupported("no vtable of " + cls)
    ex.store(st, Ptr(o.obj, 0), PTR, Ptr(ex.global_ptr(vt[0]).obj, 16))
    ex.store(st, Ptr(o.obj, field(ex.mod.members(cls), "err_handler_")), PTR, eh if eh is not None else Abs("unk", z3.BitVec("err_handler", 64)))
    return o


class ParseC(Contract):
    """do_parse(c, last, read_next): c becomes the value at the start token, the position moves behind it"""

    def __init__(self, T, src, val):
        self.T, self.src, self.val = T, src, val
        self.name = "do_parse<%s,%s>" % (val, src)

    def setups(self, ex):
        T = self.T
        for rn in (True, False):
            st = State()
            o = mk_tparser(ex, st, self.src, self.val)
            c = ex.values.new(st, z3.Const("old", V), "target")
            p = z3.Int("p0")
            if rn:
                tok_state(ex, T, st, p)
                yield "next token", st, [o, c, z3.BitVec("last", 32), True]
            else:
                tok_state(ex, T, st, p, z3.Int("t0"))
                st.g["tpend"] = z3.Bool("pend0")
                yield "given token", st, [o, c, T.TOK(z3.Int("t0")), False]

    def bind(self, ex, st, args):
        o, c, last, rn = args
        if isinstance(c, Abs) or not is_conc(rn):
            raise Unsupported("do_parse arguments")
        return dict(c=c, last=last, rn=bool(rn), start=simp(st.g["tpos"] if rn else st.g["tlast"]))

    def requires(self, ex, st, x):
        T = self.T
        t, p = st.g["tlast"], st.g["tpos"]
        pend = toB(st.g["tpend"])
        if x["rn"]:
            return [("no unread string", z3.Not(pend)), ("position", z3.And(p >= 0, p <= T.N))]
        isstr = T.TOK(t) == z3.BitVecVal(T.E["value_string"], 32)
        return [("the given token is the last one", bv(x["last"], 32) == T.TOK(t)),
                ("state after that token", z3.And(t >= 0, t <= T.N, p >= 0, p <= T.N, pend == isstr, z3.If(isstr, p == t, p == T.TEND(t))))]

    def measure(self, ex, st, x):
        return 1 + self.T.N - x["start"]

    def modifies(self, x):
        return [("g", "tpos"), ("g", "tpend"), ("g", "tlast")]

    def frame_objs(self, x):
        return (x["c"].obj,)

    def apply_case(self, ex, s, x, c):
        Contract.apply_case(self, ex, s, x, c)
        for k in ("tpos", "tpend", "tlast"):
            s.g[k] = ex.fresh(k, "bool" if k == "tpend" else "int")
        if c.out[0] == "throw":
            ex.values.put(s, x["c"], ex.fresh("partial", V))
        else:
            ex.values.put(s, x["c"], simp(self.T.PV(x["start"])))
            s.g["tpos"], s.g["tpend"] = simp(self.T.PE(x["start"])), False

    def cases(self, ex, st, x):
        T = self.T
        t = x["start"]
        e = T.PE(t)

        def wf(s, r):
            ex.values.rep(s, x["c"])
            return True
        return [Case(e < 0, ("throw", DESER), post=[("the target is left a proper value", wf)], name="not a value"),
                Case(e >= 0, ("ret", ANY), post=[("value", lambda s, r: ex.values.rep(s, x["c"]) == T.PV(t)), ("position", lambda s, r: z3.And(s.g["tpos"] == e, z3.Not(toB(s.g["tpend"])), e <= T.N, e > t))], name="value")]


def tok_pool(T):
    def pool(ex, st, f, header, M):
        out = []
        p = lambda s: s.g["tpos"]
        p0 = st.g["tpos"]
        out.append(("no unread string", lambda s: z3.Not(toB(s.g["tpend"]))))
        out.append(("position in range", lambda s: z3.And(p(s) >= p0, p(s) <= T.N)))
        out.append(("array end", lambda s: T.AE(p(s)) == T.AE(p0)))
        out.append(("object end", lambda s: T.OE(p(s)) == T.OE(p0)))
        for m in M:
            if m[0] == "ghost" and isinstance(m[1], tuple) and m[1][0] == "vec":
                out.append(("elements read so far", lambda s, k=m[1]: T.AV(s.g[k], p(s)) == T.AV(st.g[k], p0)))
            if m[0] == "ghost" and isinstance(m[1], tuple) and m[1][0] == "map":
                out.append(("members read so far", lambda s, k=m[1]: T.OV(s.g[k], p(s)) == T.OV(st.g[k], p0)))
        return out
    return pool


def tok_measures(T):
    def meas(ex, head):
        return [("input left", lambda s: T.N - s.g["tpos"])]
    return meas
