"""Operations on one value or two, from every kind of value: the body is executed on a concrete representation whose contents
(text, elements, members) are arbitrary ghost terms; afterwards its ghost value, its result and the ownership of every piece of
heap memory are obligations."""
import re
import z3
from llir import Unsupported, PTR, IntTy, Ty
from sym import Ptr, NULL, Abs, Fn, UNDEF, State, simp, same, toB, bv, is_conc, NeedInv, Obl
from stdlib import TXT, EMPTY, LEN, R, str_get, str_set, TLT
from values import *
import values
from values import Values, register, c64
from models import new_executor, find
from harness import Target, harvest

CONTENT = dict(string="str", array="vec", object="map")
TYPE_ERR = "_ZTIN8configor19configor_type_errorE"
KEY_ERR = "_ZTIN8configor20configor_invalid_keyE"
IT_ERR = "_ZTIN8configor25configor_invalid_iteratorE"
RANGE_ERR = "_ZTISt12out_of_range"
BVX = r"configor::basic_value<configor::\w+>"
OWN = "ownership: "
MEMORY = re.compile(r"after free|double free|released twice|destroyed|destruction of|free of non-heap|^use of|without contents")

TRUSTED_VALUES = ["std::vector, std::map, std::basic_string and std::allocator of libstdc++: contracts over the ghost contents (element order, lookup, insertion, erasure, equality, order), cross-checked natively only by replay/value.cpp"]
ASSUME_VALUES = ["memory allocation succeeds (std::bad_alloc is not a path)",
                 "values have any contents of any nesting and size; elements are values again (induction over the nesting: the functions called on an element are represented by their own specification)",
                 "the two values of a binary operation are distinct objects or the same object; for copy and assignment also an element of the other",
                 "the floating-point type is IEEE binary64 and arithmetic is as in the rounding mode to nearest"]


def runner(ct, *whats, keep=None):
    def f(mod):
        o = Ops(mod, ct)
        for w in whats:
            w(o)
        return o.harvest(keep)
    return f


def owns(o):
    return o["name"].startswith(OWN) or bool(MEMORY.search(o["name"])) or not_exit(o)


def not_exit(o):
    return o["name"].endswith("reaches an exit")


def shows(o):
    return not o["name"].startswith(OWN)


class Ops:
    def __init__(self, mod, ct):
        self.ct = ct
        self.ex = ex = new_executor(mod, "", fpmode="fp")
        ex.eager = True
        ex.rounds = 3
        self.vs = Values(ex)
        self.fns = []
        vs = self.vs

        def dtor(ex, st, name, args, I):
            p = args[0]
            c = ex.get_cells(st, p.obj).get(p.off + 8) if isinstance(p, Ptr) else None
            if c is not None and isinstance(c[1], Abs) and c[1].kind == "vdata":
                return R(st)          # its contents are a ghost value
            return None
        ex.add_contract(r"^%s::~basic_value\(\)$" % BVX, dtor, "~basic_value of an element (C10)", trusted=False, front=True)
        value_copy(ex)
        ex.abs_cmp[("cstrtext", "ckey")] = lambda ex, st, p: p.d[0]
        n = ("value" if ct == "char" else "wvalue") + "_tplargs"
        self.pre = r"inst<configor::basic_value<configor::%s>>::" % n
        ex.abs_cmp[("eq", "ckey")] = lambda ex, x, y: False if isinstance(y, Ptr) and y.obj is None else None

    def fn(self, rx):
        return find(self.ex.mod, self.pre + rx)

    # -- states
    def fresh(self, st, kind, name):
        """an arbitrary value of this kind at a fresh address -> (Ptr, ghost value)"""
        ex, vs = self.ex, self.vs
        p = ex.alloc(st, name, 16, "value")
        self.fill(st, p, kind, name)
        return p, vs.rep(st, p)

    def fill(self, st, p, kind, name):
        ex, vs = self.ex, self.vs
        ex.store_cell(st, p, 4, vs.T[kind])
        q = Ptr(p.obj, p.off + 8)
        if kind == "null":
            ex.store_cell(st, q, 8, 0)
        elif kind == "boolean":
            b = ex.fresh(name + ".b", "bool")
            ex.store_cell(st, q, 1, z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)))
        elif kind == "integer":
            ex.store_cell(st, q, 8, ex.fresh(name + ".i", 64))
        elif kind == "floating":
            ex.store_cell(st, q, 8, z3.Const(ex.fresh(name + ".f", 64).decl().name(), z3.Float64()))
        else:
            h = ex.alloc(st, "contents of " + name, None, "heap")
            st.g[("heap", h.obj)] = True
            k = CONTENT[kind]
            st.g[(k, h.obj, 0)] = dict(str=lambda: ex.fresh(name + ".t", TXT), vec=lambda: ex.fresh(name + ".s", SEQ), map=lambda: ex.fresh(name + ".o", OBJ))[k]()
            ex.store_cell(st, q, 8, h)

    def room(self, st, name):
        return self.ex.alloc(st, name, 16, "value")

    def text(self, st, name="key"):
        ex = self.ex
        p = ex.alloc(st, name, 32, "string")
        t = ex.fresh(name, TXT)
        str_set(ex, st, p, t)
        return p, t

    def ckey(self, st, name="key"):
        t = self.ex.fresh(name, TXT)
        p = self.ex.alloc(st, name, 8, "cell")
        return Abs("ckey", t), t

    # -- ownership
    def owned(self, st, roots, L):
        """every heap block is released, or held by exactly one live value"""
        ex, vs = self.ex, self.vs
        held = []
        for p in roots:
            c = ex.get_cells(st, p.obj).get(p.off + 8)
            if c is not None and isinstance(c[1], Abs) and c[1].kind == "vdata":
                continue
            t = ex.load(st, p, IntTy(32))
            if t is UNDEF or not is_conc(t):
                ex.oblige(st, False, OWN + "%s: a value has a definite kind" % L)
                return
            k = [k for k in KINDS if vs.T[k] == t]
            if k and k[0] in CONTENT:
                q = ex.load(st, Ptr(p.obj, p.off + 8), PTR)
                ok = isinstance(q, Ptr) and q.obj is not None and q.obj not in st.freed and ("heap", q.obj) in st.g and (CONTENT[k[0]], q.obj, 0) in st.g
                ex.oblige(st, ok, OWN + "%s: a %s holds live contents" % (L, k[0]))
                if not ok:
                    return
                held.append(q.obj)
        live = [k[1] for k in st.g if isinstance(k, tuple) and k[0] == "heap" and k[1] not in st.freed]
        ex.oblige(st, len(set(held)) == len(held), OWN + "%s: no contents are shared" % L)
        ex.oblige(st, not (set(live) - set(held)), OWN + "%s: nothing is leaked" % L)
        left = [k for k in st.g if isinstance(k, tuple) and k[0] in ("vec", "map", "str") and k[1] in st.freed and ("heap", k[1]) in st.g]
        ex.oblige(st, not left, OWN + "%s: contents are destroyed before their memory is released" % L)

    # -- one run
    def run(self, label, rx, mk):
        """mk(st) -> (args, post(st, out))"""
        ex = self.ex
        name = self.fn(rx)
        if name not in self.fns:
            self.fns.append(name)
        f = ex.mod.funcs[name]
        while True:
            mark = len(ex.obls)
            try:
                st = State()
                args, post = mk(st)
                outs = ex.exec_func(st, f, args)
                ex.stack.append(name)
                try:
                    n = 0
                    for s, o in outs:
                        if ex.feasible(s):
                            n += 1
                            post(s, o)
                    if n == 0:
                        ex.obls.append(Obl(name=label + " reaches an exit", ok=False, status="failed", fn=name, t=0, backend="z3", line=f.line, trace=()))
                finally:
                    ex.stack.pop()
                ex.covers[(rx, label)] = n
                return
            except NeedInv as e:
                del ex.obls[mark:]
                key = (e.fn, e.header)
                if key in ex.invloops:
                    raise Unsupported("loop handling failed: %s" % e)
                ex.invloops.add(key)

    def is_(self, st, p, v, name):
        self.ex.oblige(st, veq(self.vs.rep(st, p), v), name)

    def thrown(self, st, o, ti, L):
        """the exit is this exception"""
        ex = self.ex
        if o[0] != "throw":
            ex.fail(st, "%s: an error is raised" % L)
            return False
        t = st.g.get(("exc", o[1].obj))
        return ex.oblige(st, ti in (ex.ti_bases(t) if t else []), "%s: error of type %s (is %s)" % (L, ti, t))

    def returned(self, st, o, L):
        if o[0] != "ret":
            self.ex.fail(st, "%s: returns normally (throws %s)" % (L, st.g.get(("exc", o[1].obj))))
            return False
        return True

    def harvest(self, keep=None):
        r = harvest(self.ex, [self.ex.mod.dem(n) for n in self.fns] + sorted(self.ex.mod.dem(n) for n in self.ex.inlined if "configor::" in self.ex.mod.dem(n)))
        if keep:
            r.obls = [o for o in r.obls if keep(o)]
        return r


def veq(a, b):
    """equality of ghost values; floats bit for bit"""
    if same(a, b):
        return True
    return a == b


def kind_term(k, name):
    return


# ---------------------------------------------------------------------- the operations
def element(o, st, p, base, kind, idx, v, L):
    """the reference p denotes element idx of the container of the value at base, holding v"""
    ex, vs = o.ex, o.vs
    h = ex.load(st, Ptr(base.obj, base.off + 8), PTR)
    r = st.g.get(("elem", p.obj)) if isinstance(p, Ptr) else None
    if r is None:
        ex.oblige(st, False, "%s: a reference to the element" % L)
        return
    ex.oblige(st, r[0] == h.obj and r[1] == h.off and r[2] == kind, "%s: a reference into this value" % L)
    ex.oblige(st, c64(r[3]) == c64(idx) if kind == "vec" else r[3] == idx, "%s: a reference to the element addressed" % L)
    ex.oblige(st, veq(vs.rep(st, p), v), "%s: the element's value" % L)


def ops_c10(o):
    """life cycle"""
    ex, vs = o.ex, o.vs
    for k in KINDS:
        L = "~value(%s)" % k

        def mk(st, k=k, L=L):
            p, v = o.fresh(st, k, "v")

            def post(s, r):
                if o.returned(s, r, L):
                    o.owned(s, [], L)
            return [p], post
        o.run(L, r"destroy\(", mk)

        for rx, L, mv in ((r"copy\(", "copy(%s)" % k, False), (r"move\(", "move(%s)" % k, True)):
            def mk(st, k=k, L=L, mv=mv):
                d = o.room(st, "target")
                p, v = o.fresh(st, k, "v")

                def post(s, r):
                    if not o.returned(s, r, L):
                        return
                    o.is_(s, d, v, L + ": equal to the original")
                    o.is_(s, p, V.vnull if mv else v, L + (": the original becomes null" if mv else ": the original is unchanged"))
                    o.owned(s, [d, p], L)
                return [d, p], post
            o.run(L, rx, mk)

        def mk(st, k=k):
            d = o.room(st, "target")
            L = "value(kind %s)" % k

            def post(s, r):
                if o.returned(s, r, L):
                    o.is_(s, d, zero(k), L + ": the empty value of the kind")
                    o.owned(s, [d], L)
            return [d, vs.T[k]], post
        o.run("value(kind %s)" % k, r"kind\(", mk)

    def mk(st):
        d = o.room(st, "target")

        def post(s, r):
            if o.returned(s, r, "value()"):
                o.is_(s, d, V.vnull, "value(): null")
                o.owned(s, [d], "value()")
        return [d], post
    o.run("value()", r"def\(", mk)
    for k in KINDS:
        for k2 in KINDS:
            for rx, L in ((r"assign\(", "%s = %s" % (k, k2)), (r"massign\(", "%s = move(%s)" % (k, k2)), (r"swap\(", "swap(%s, %s)" % (k, k2))):
                def mk(st, k=k, k2=k2, L=L, rx=rx):
                    a, x = o.fresh(st, k, "a")
                    b, y = o.fresh(st, k2, "b")

                    def post(s, r):
                        if not o.returned(s, r, L):
                            return
                        o.is_(s, a, y, L + ": the target holds the new value")
                        if rx.startswith("swap"):
                            o.is_(s, b, x, L + ": the other holds the old value")
                        elif rx.startswith("assign"):
                            o.is_(s, b, y, L + ": the source is unchanged")
                        else:
                            o.is_(s, b, V.vnull, L + ": the source becomes null")
                        if rx.startswith("swap"):
                            pass
                        else:
                            ex.oblige(s, same(r[1], a), L + ": returns the target")
                        o.owned(s, [a, b], L)
                    return [a, b], post
                o.run(L, rx, mk)

            def mk(st, k=k, k2=k2):
                a, x = o.fresh(st, k, "a")
                L = "%s = kind %s" % (k, k2)

                def post(s, r):
                    if o.returned(s, r, L):
                        o.is_(s, a, zero(k2), L + ": the empty value of the kind")
                        o.owned(s, [a], L)
                return [a, vs.T[k2]], post
            o.run("%s = kind %s" % (k, k2), r"kassign\(", mk)
        for rx, L in ((r"assign\(", "%s = itself" % k), (r"massign\(", "%s = move(itself)" % k), (r"swap\(", "swap(%s, itself)" % k)):
            def mk(st, k=k, L=L):
                a, x = o.fresh(st, k, "a")

                def post(s, r):
                    if o.returned(s, r, L):
                        o.is_(s, a, x, L + ": unchanged")
                        o.owned(s, [a], L)
                return [a, a], post
            o.run(L, rx, mk)


def ops_c10_nested(o):
    """assignment and swapping between a container and one of its own elements"""
    ex, vs = o.ex, o.vs
    for k in ("array", "object"):
        kd = CONTENT[k]
        for rx, what in ((r"assign\(", "="), (r"massign\(", "= move of"), (r"copy\(", "copy of")):
            def mk(st, k=k, kd=kd, rx=rx, what=what):
                L = "%s %s its element" % (k, what)
                p, v = o.fresh(st, k, "v")
                h = ex.load(st, Ptr(p.obj, 8), PTR)
                e, x, i = some_element(o, st, h, k, v)
                d = o.room(st, "target") if rx.startswith("copy") else p

                def post(s, r):
                    if not o.returned(s, r, L):
                        return
                    o.is_(s, d, x, L + ": equal to the element")
                    if d is not p:
                        o.is_(s, p, v, L + ": the container is unchanged")
                    else:
                        ex.oblige(s, same(r[1], p), L + ": returns the target")
                        ex.oblige(s, h.obj in s.freed, OWN + L + ": the old contents are released")
                return [d, e], post
            o.run("%s %s its element" % (k, what), rx, mk)
        for rx, what in ((r"assign\(", "="), ):
            def mk(st, k=k, kd=kd, rx=rx, what=what):
                L = "element of %s %s the %s" % (k, what, k)
                p, v = o.fresh(st, k, "v")
                h = ex.load(st, Ptr(p.obj, 8), PTR)
                e, x, i = some_element(o, st, h, k, v)

                def post(s, r):
                    if not o.returned(s, r, L):
                        return
                    w = V.varr(sset(V.s(v), i, v)) if k == "array" else V.vobj(OSET(V.o(v), i, v))
                    o.is_(s, p, w, L + ": exactly this element is replaced")
                    ex.oblige(s, h.obj not in s.freed, OWN + L + ": the contents stay alive")
                return [e, p], post
            o.run("element of %s %s the %s" % (k, what, k), rx, mk)


def some_element(o, st, h, k, v):
    ex, vs = o.ex, o.vs
    if k == "array":
        i = ex.fresh("i", 64)
        st.assume(z3.ULT(i, SLEN(V.s(v))))
        x = SNTH(V.s(v), i)
        return vs.elem(st, h, "vec", i, x), x, i
    t = ex.fresh("key", TXT)
    st.assume(OHAS(V.o(v), t))
    x = OGET(V.o(v), t)
    return vs.elem(st, h, "map", t, x), x, t


def zero(k):
    return dict(null=V.vnull, boolean=V.vbool(False), integer=V.vint(z3.BitVecVal(0, 64)), floating=V.vflt(z3.FPVal(0.0, z3.Float64())),
                string=V.vstr(EMPTY), array=V.varr(SEMPTY), object=V.vobj(OEMPTY))[k]


SCALAR = [("bool", "boolean", 1), ("signed char", "integer", 8), ("short", "integer", 16), ("int", "integer", 32), ("long long", "integer", 64), ("long", "integer", 64),
          ("unsigned char", "integer", -8), ("unsigned int", "integer", -32), ("unsigned long", "integer", -64), ("float", "floating", 32), ("double", "floating", 64)]
F64, F32 = z3.Float64(), z3.Float32()
RNE = z3.RNE()


def conv_to(v, t):
    """the scalar of C++ type t that the value holds"""
    n, k, b = t
    if k == "boolean":
        return V.b(v)
    if k == "integer":
        return z3.Extract(abs(b) - 1, 0, V.i(v))
    return z3.fpFPToFP(RNE, V.f(v), F32) if b == 32 else V.f(v)


def conv_from(x, t):
    """the value built from a scalar x of C++ type t"""
    n, k, b = t
    if k == "boolean":
        return V.vbool(toB(x))
    if k == "integer":
        x = bv(x, abs(b))
        return V.vint(x if abs(b) == 64 else z3.SignExt(64 - b, x) if b > 0 else z3.ZeroExt(64 + b, x))
    return V.vflt(z3.fpFPToFP(RNE, x, F64) if b == 32 else x)


def scalar_arg(o, t, name="x"):
    """(argument, its term) for an arbitrary scalar"""
    ex = o.ex
    n, k, b = t
    if k == "boolean":
        x = ex.fresh(name, "bool")
        return x, x
    if k == "integer":
        x = ex.fresh(name, abs(b))
        return x, x
    x = z3.Const(ex.fresh(name, 64).decl().name(), F64 if b == 64 else F32)
    return x, x


def fload(o, st, p, t):
    n, k, b = t
    if k == "floating":
        return o.ex.load(st, p, Ty("double") if b == 64 else Ty("float"))
    x = o.ex.load(st, p, IntTy(8 if k == "boolean" else abs(b)))
    return x


def scalar_eq(a, b, t):
    n, k, bits = t
    if a is UNDEF or a is None:
        return False
    if k == "boolean":
        if not isinstance(a, bool) and (is_conc(a) or z3.is_bv(a)):
            a = bv(a, 8) == 1 if not is_conc(a) else a == 1
        return toB(a) == toB(b)
    if k == "integer":
        return bv(a, abs(bits)) == bv(b, abs(bits))
    if z3.is_bv(a):
        a = z3.fpBVToFP(a, b.sort())
    return z3.BoolVal(False) if not z3.is_fp(a) or a.sort() != b.sort() else a == b


# ---------------------------------------------------------------------- C11
def ops_c11(o):
    ex, vs = o.ex, o.vs
    K1 = z3.BitVecVal(1, 64)
    for k in KINDS:
        def simple(rx, want, k=k, extra=None):
            L = "%s(%s)" % (re.sub(r"\W", "", rx), k)

            def mk(st):
                p, v = o.fresh(st, k, "v")
                a, w = [], None
                if extra:
                    q, w = extra(st)
                    a = [q]

                def post(s, r):
                    if o.returned(s, r, L):
                        ex.oblige(s, val_eq_(ex, r[1], want(v, w)), L + ": result")
                        o.is_(s, p, v, L + ": the value is unchanged")
                        o.owned(s, [p], L)
                return [p] + a, post
            o.run(L, rx, mk)
        B0 = z3.BitVecVal(0, 64)
        simple(r"size\(", lambda v, w, k=k: dict(null=B0, array=SLEN(V.s(v)), object=OLEN(V.o(v))).get(k, K1))
        simple(r"empty\(", lambda v, w, k=k: dict(null=z3.BoolVal(True), array=SLEN(V.s(v)) == 0, object=OLEN(V.o(v)) == 0).get(k, z3.BoolVal(False)))
        simple(r"count\(", lambda v, w, k=k: z3.If(OHAS(V.o(v), w), K1, B0) if k == "object" else B0, extra=o.text)

        def mk(st, k=k):
            L = "clear(%s)" % k
            p, v = o.fresh(st, k, "v")

            def post(s, r):
                if o.returned(s, r, L):
                    o.is_(s, p, zero(k), L + ": empty, of the same kind")
                    o.owned(s, [p], L)
            return [p], post
        o.run("clear(%s)" % k, r"clear\(", mk)

        def mk(st, k=k):
            L = "erase(%s, key)" % k
            p, v = o.fresh(st, k, "v")
            q, t = o.text(st)

            def post(s, r):
                if k == "object":
                    if o.returned(s, r, L):
                        ex.oblige(s, val_eq_(ex, r[1], z3.If(OHAS(V.o(v), t), K1, B0)), L + ": number of members erased")
                        o.is_(s, p, V.vobj(ODEL(V.o(v), t)), L + ": the member is gone, the others stay")
                else:
                    o.thrown(s, r, KEY_ERR, L)
                    o.is_(s, p, v, L + ": the value is unchanged")
                o.owned(s, [p], L)
            return [p, q], post
        o.run("erase(%s, key)" % k, r"erase_k\(", mk)

        def mk(st, k=k):
            L = "erase(%s, index)" % k
            p, v = o.fresh(st, k, "v")
            i = ex.fresh("i", 64)
            if k == "array":
                st.assume(z3.ULT(i, SLEN(V.s(v))))

            def post(s, r):
                if k == "array":
                    if o.returned(s, r, L):
                        o.is_(s, p, V.varr(SDEL(V.s(v), i)), L + ": the element is gone, the others stay")
                else:
                    o.thrown(s, r, KEY_ERR, L)
                    o.is_(s, p, v, L + ": the value is unchanged")
                o.owned(s, [p], L)
            return [p, i], post
        o.run("erase(%s, index)" % k, r"erase_n\(", mk)

        for k2 in KINDS:
            for rx, mv in ((r"push\(", 0), (r"push_m\(", 1), (r"emp\(", 0), (r"emp_m\(", 1)):
                L = "%s(%s, %s)" % (rx[:-2], k, k2)

                def mk(st, k=k, k2=k2, mv=mv, L=L):
                    p, v = o.fresh(st, k, "v")
                    q, x = o.fresh(st, k2, "x")

                    def post(s, r):
                        if k in ("null", "array"):
                            if o.returned(s, r, L):
                                o.is_(s, p, V.varr(SNOC(SEMPTY if k == "null" else V.s(v), x)), L + ": appended at the end")
                                o.is_(s, q, V.vnull if mv else x, L + ": the argument afterwards")
                        else:
                            o.thrown(s, r, TYPE_ERR, L)
                            o.is_(s, p, v, L + ": the value is unchanged")
                            o.is_(s, q, x, L + ": the argument is unchanged")
                        o.owned(s, [p, q], L)
                    return [p, q], post
                o.run(L, rx, mk)

        # reading access by position
        for rx in (r"at_n\(", r"idx_nc\("):
            L = "%s(%s)" % (rx[:-2], k)

            def mk(st, k=k, L=L):
                p, v = o.fresh(st, k, "v")
                i = ex.fresh("i", 64)

                def post(s, r):
                    if k == "array":
                        S = V.s(v)
                        for s2, inr in values.split(ex, s, z3.ULT(i, SLEN(S))):
                            if inr:
                                if o.returned(s2, r, L):
                                    element(o, s2, r[1], p, "vec", i, SNTH(S, i), L)
                            else:
                                o.thrown(s2, r, RANGE_ERR, L)
                            o.is_(s2, p, v, L + ": the value is unchanged")
                    else:
                        o.thrown(s, r, KEY_ERR, L)
                        o.is_(s, p, v, L + ": the value is unchanged")
                    o.owned(s, [p], L)
                return [p, i], post
            o.run(L, rx, mk)
        for rx in (r"at_k\(", r"idx_kc\(", r"at_c\(", r"idx_cc\("):
            L = "%s(%s)" % (rx[:-2], k)

            def mk(st, k=k, L=L, rx=rx):
                p, v = o.fresh(st, k, "v")
                q, t = o.text(st) if "k" in rx else o.ckey(st)

                def post(s, r):
                    if k == "object":
                        O = V.o(v)
                        for s2, inr in values.split(ex, s, OHAS(O, t)):
                            if inr:
                                if o.returned(s2, r, L):
                                    member(o, s2, r[1], p, t, OGET(O, t), L)
                            else:
                                o.thrown(s2, r, RANGE_ERR, L)
                            o.is_(s2, p, v, L + ": the value is unchanged")
                    else:
                        o.thrown(s, r, KEY_ERR, L)
                        o.is_(s, p, v, L + ": the value is unchanged")
                    o.owned(s, [p], L)
                return [p, q], post
            o.run(L, rx, mk)
        # writing access
        def mk(st, k=k):
            L = "operator[](%s, index)" % k
            p, v = o.fresh(st, k, "v")
            i = ex.fresh("i", 64)

            def post(s, r):
                if k in ("null", "array"):
                    S = SEMPTY if k == "null" else V.s(v)
                    for s1, huge in values.split(ex, s, z3.UGE(i, MAXELEMS)):
                        if huge:
                            o.thrown(s1, r, RANGE_ERR, L + " beyond any size")
                            continue
                        if not o.returned(s1, r, L):
                            continue
                        for s2, inr in values.split(ex, s1, z3.ULT(i, SLEN(S))):
                            element(o, s2, r[1], p, "vec", i, SNTH(S, i) if inr else V.vnull, L)
                            o.is_(s2, p, V.varr(S if inr else SPAD(S, simp(i - SLEN(S) + 1), V.vnull)), L + ": exactly up to this element, the others stay")
                else:
                    o.thrown(s, r, KEY_ERR, L)
                    o.is_(s, p, v, L + ": the value is unchanged")
                o.owned(s, [p], L)
            return [p, i], post
        o.run("operator[](%s, index)" % k, r"idx_n\(", mk)
        for rx in (r"idx_k\(", r"idx_c\("):
            def mk(st, k=k, rx=rx):
                L = "operator[](%s, %s)" % (k, "key" if "k" in rx else "C string")
                p, v = o.fresh(st, k, "v")
                q, t = o.text(st) if "k" in rx else o.ckey(st)

                def post(s, r):
                    if k in ("null", "object"):
                        O = OEMPTY if k == "null" else V.o(v)
                        if o.returned(s, r, L):
                            member(o, s, r[1], p, t, z3.If(OHAS(O, t), OGET(O, t), V.vnull), L)
                            o.is_(s, p, V.vobj(OINS(O, t, V.vnull)), L + ": exactly this member is added, the others stay")
                    else:
                        o.thrown(s, r, KEY_ERR, L)
                        o.is_(s, p, v, L + ": the value is unchanged")
                    o.owned(s, [p], L)
                return [p, q], post
            o.run("operator[](%s, %s)" % (k, rx), rx, mk)


MAXELEMS = z3.BitVecVal((1 << 59) - 1, 64)      # std::vector<basic_value>::max_size()


def member(o, st, p, base, t, v, L):
    ex = o.ex
    h = ex.load(st, Ptr(base.obj, base.off + 8), PTR)
    r = st.g.get(("elem", p.obj)) if isinstance(p, Ptr) else None
    if r is None:
        ex.oblige(st, False, "%s: a reference to the member" % L)
        return
    ex.oblige(st, r[0] == h.obj and r[1] == h.off and r[2] == "map", "%s: a reference into this value" % L)
    ex.oblige(st, r[3] == t, "%s: a reference to the member addressed" % L)
    ex.oblige(st, veq(o.vs.rep(st, p), v), "%s: the member's value" % L)


def val_eq_(ex, a, b):
    from vc import val_eq
    return val_eq(ex, a, b)


# ---------------------------------------------------------------------- C12
def i2f(i):
    return z3.fpSignedToFP(RNE, i, F64)


def EQ(a, b):
    is_ = lambda k, x: IS[k](x)
    c = [z3.And(is_("null", a), is_("null", b)),
         z3.And(is_("boolean", a), is_("boolean", b), V.b(a) == V.b(b)),
         z3.And(is_("integer", a), is_("integer", b), V.i(a) == V.i(b)),
         z3.And(is_("floating", a), is_("floating", b), z3.fpEQ(V.f(a), V.f(b))),
         z3.And(is_("integer", a), is_("floating", b), z3.fpEQ(i2f(V.i(a)), V.f(b))),
         z3.And(is_("floating", a), is_("integer", b), z3.fpEQ(V.f(a), i2f(V.i(b)))),
         z3.And(is_("string", a), is_("string", b), V.t(a) == V.t(b)),
         z3.And(is_("array", a), is_("array", b), SEQV(V.s(a), V.s(b))),
         z3.And(is_("object", a), is_("object", b), OEQV(V.o(a), V.o(b)))]
    return z3.Or(c)


def LT(a, b):
    is_ = lambda k, x: IS[k](x)
    return z3.Or([z3.And(is_("boolean", a), is_("boolean", b), z3.Not(V.b(a)), V.b(b)),
                  z3.And(is_("integer", a), is_("integer", b), V.i(a) < V.i(b)),
                  z3.And(is_("floating", a), is_("floating", b), z3.fpLT(V.f(a), V.f(b))),
                  z3.And(is_("integer", a), is_("floating", b), z3.fpLT(i2f(V.i(a)), V.f(b))),
                  z3.And(is_("floating", a), is_("integer", b), z3.fpLT(V.f(a), i2f(V.i(b)))),
                  z3.And(is_("string", a), is_("string", b), TLT(V.t(a), V.t(b))),
                  z3.And(is_("array", a), is_("array", b), SLT(V.s(a), V.s(b))),
                  z3.And(is_("object", a), is_("object", b), OLT(V.o(a), V.o(b)))])


REL = dict(eq=EQ, ne=lambda a, b: z3.Not(EQ(a, b)), lt=LT, le=lambda a, b: z3.Not(LT(b, a)), gt=lambda a, b: LT(b, a), ge=lambda a, b: z3.Not(LT(a, b)))


def ops_c12(o):
    ex, vs = o.ex, o.vs
    for k in KINDS:
        for k2 in KINDS:
            for rel, spec in REL.items():
                L = "%s %s %s" % (k, rel, k2)

                def mk(st, k=k, k2=k2, L=L, spec=spec):
                    p, v = o.fresh(st, k, "a")
                    q, w = o.fresh(st, k2, "b")

                    def post(s, r):
                        if o.returned(s, r, L):
                            ex.oblige(s, toB(r[1]) == spec(v, w), L + ": result")
                            o.is_(s, p, v, L + ": left side unchanged")
                            o.is_(s, q, w, L + ": right side unchanged")
                    return [p, q], post
                o.run(L, r"%s\(" % rel, mk)
        for rel, spec in REL.items():
            def mk(st, k=k, spec=spec, rel=rel):
                L = "%s %s itself" % (k, rel)
                p, v = o.fresh(st, k, "a")

                def post(s, r):
                    if o.returned(s, r, L):
                        ex.oblige(s, toB(r[1]) == spec(v, v), L + ": result")
                return [p, p], post
            o.run("%s %s itself" % (k, rel), r"%s\(" % rel, mk)
        for t in SCALAR:
            if t[0] not in ("int", "long long", "bool", "double", "unsigned int", "float"):
                continue
            for rel, spec in REL.items():
                for side in (1, 2):
                    L = "%s %s %s (%d)" % (k, rel, t[0], side)

                    def mk(st, k=k, t=t, side=side, spec=spec, L=L):
                        p, v = o.fresh(st, k, "a")
                        a, x = scalar_arg(o, t)
                        w = conv_from(x, t)

                        def post(s, r):
                            if o.returned(s, r, L):
                                ex.oblige(s, toB(r[1]) == (spec(v, w) if side == 1 else spec(w, v)), L + ": result")
                                o.is_(s, p, v, L + ": unchanged")
                        return ([p, a] if side == 1 else [a, p]), post
                    o.run(L, r"%s%d<%s>\(" % (rel, side, t[0]), mk)


def lemmas_c12(o):
    """laws of the specified relation; the laws of the contents are the induction hypotheses"""
    ex = o.ex
    a, b = z3.Const("A", V), z3.Const("B", V)
    sa, sb, oa, ob = V.s(a), V.s(b), V.o(a), V.o(b)
    ta, tb = V.t(a), V.t(b)
    hyp_sym = [SEQV(sa, sb) == SEQV(sb, sa), OEQV(oa, ob) == OEQV(ob, oa)]
    hyp_ord = [z3.Not(z3.And(SLT(sa, sb), SLT(sb, sa))), z3.Not(z3.And(OLT(oa, ob), OLT(ob, oa))), z3.Not(z3.And(TLT(ta, tb), TLT(tb, ta)))]
    hyp_ref = [SEQV(sa, sa), OEQV(oa, oa)]
    hyp_eqlt = [z3.Implies(SEQV(sa, sb), z3.Not(SLT(sa, sb))), z3.Implies(OEQV(oa, ob), z3.Not(OLT(oa, ob))), z3.Not(TLT(ta, ta))]
    nan = lambda x: z3.And(IS["floating"](x), z3.fpIsNaN(V.f(x)))
    for nm, hyp, goal in (("equality is symmetric", hyp_sym, EQ(a, b) == EQ(b, a)),
                          ("equality is reflexive except for NaN", hyp_ref, z3.Or(nan(a), EQ(a, a))),
                          ("the order is asymmetric", hyp_ord, z3.Not(z3.And(LT(a, b), LT(b, a)))),
                          ("equal values are not ordered", hyp_eqlt, z3.Implies(EQ(a, b), z3.Not(LT(a, b)))),
                          ("values of different kinds are unequal except an integer and a float", [],
                           z3.Implies(z3.And(EQ(a, b), o.vs.vtype(a) != o.vs.vtype(b)), z3.Or(z3.And(IS["integer"](a), IS["floating"](b)), z3.And(IS["floating"](a), IS["integer"](b)))))):
        st = State()
        for h in hyp:
            st.assume(h)
        ex.oblige(st, goal, "lemma: " + nm)


# ---------------------------------------------------------------------- C13
HELD = [("bool", "boolean"), ("long", "integer"), ("double", "floating"), ("S", "string"), ("A", "array"), ("O", "object")]


def ops_c13(o):
    ex, vs = o.ex, o.vs
    ct = o.ct
    n = ("value" if ct == "char" else "wvalue") + "_tplargs"
    bvn = r"configor::basic_value<configor::%s>" % n
    S = r"std::__cxx11::basic_string<%s, std::char_traits<%s>, std::allocator<%s>\s*>" % (ct, ct, ct)
    NM = dict(S=r"std::__cxx11::basic_string<[^()]*>", A=r"std::vector<[^()]*>", O=r"std::map<[^()]*>")
    nm = lambda t: NM.get(t, re.escape(t))
    for k in KINDS:
        for f, want in [("type", None)] + [("is_" + x, (x,)) for x in KINDS] + [("is_number", ("integer", "floating"))]:
            L = "%s(%s)" % (f, k)

            def mk(st, k=k, f=f, want=want, L=L):
                p, v = o.fresh(st, k, "v")

                def post(s, r):
                    if o.returned(s, r, L):
                        ex.oblige(s, val_eq_(ex, r[1], vs.T[k]) if want is None else toB(r[1]) == z3.BoolVal(k in want), L + ": result")
                        o.is_(s, p, v, L + ": unchanged")
                return [p], post
            o.run(L, f + r"\(", mk)
        # scalars
        for t in SCALAR:
            for f in ("get", "conv"):
                L = "%s<%s>(%s)" % (f, t[0], k)

                def mk(st, k=k, t=t, L=L):
                    p, v = o.fresh(st, k, "v")

                    def post(s, r):
                        if k == t[1]:
                            if o.returned(s, r, L):
                                ex.oblige(s, scalar_eq(r[1], conv_to(v, t), t), L + ": result")
                        else:
                            o.thrown(s, r, TYPE_ERR, L)
                        o.is_(s, p, v, L + ": unchanged")
                        o.owned(s, [p], L)
                    return [p], post
                o.run(L, r"%s<%s>\(" % (f, t[0]), mk)
            L = "get(%s&)(%s)" % (t[0], k)

            def mk(st, k=k, t=t, L=L):
                p, v = o.fresh(st, k, "v")
                q = ex.alloc(st, "target", 8, "cell")
                a, x = scalar_arg(o, t, "old")
                sz = 1 if t[1] == "boolean" else abs(t[2]) // 8
                ex.store_cell(st, q, sz, z3.If(a, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if t[1] == "boolean" else a)

                def post(s, r):
                    if o.returned(s, r, L):
                        ok = k == t[1]
                        ex.oblige(s, toB(r[1]) == z3.BoolVal(ok), L + ": result")
                        ex.oblige(s, scalar_eq(fload(o, s, q, t), conv_to(v, t) if ok else x, t), L + ": the target")
                    o.is_(s, p, v, L + ": unchanged")
                    o.owned(s, [p], L)
                return [p, q], post
            o.run(L, r"get_to<%s>\(" % t[0], mk)
        # references and pointers
        for t, hk in HELD:
            for f in ("ref", "cref", "mcref", "ptr", "cptr", "gptr", "gcptr"):
                L = "%s<%s>(%s)" % (f, t, k)

                def mk(st, k=k, t=t, hk=hk, L=L, f=f):
                    p, v = o.fresh(st, k, "v")
                    d = Ptr(p.obj, 8)
                    want = d if hk not in CONTENT else (ex.load(st, d, PTR) if k in CONTENT else None)

                    def post(s, r):
                        if k == hk:
                            if o.returned(s, r, L):
                                ex.oblige(s, val_eq_(ex, r[1], want), L + ": points to the contents")
                        elif "ref" in f:
                            o.thrown(s, r, TYPE_ERR, L)
                        elif o.returned(s, r, L):
                            ex.oblige(s, val_eq_(ex, r[1], NULL), L + ": null")
                        o.is_(s, p, v, L + ": unchanged")
                        o.owned(s, [p], L)
                    return [p], post
                o.run(L, r"%s<%s ?>\(" % (f, nm(t)), mk)
        # copies of the contents
        for t, hk in (("S", "string"), ("A", "array"), ("O", "object"), ("V", None)):
            g = CONTENT.get(hk)
            T = bvn if t == "V" else nm(t)

            def good(k=k, hk=hk):
                return hk is None or k == hk or k == "null" and hk != "string"

            def want(v, k=k, hk=hk):
                if k == "null":
                    return SEMPTY if hk == "array" else OEMPTY
                return dict(string=V.t, array=V.s, object=V.o)[hk](v)
            L = "get<%s>(%s)" % (t, k)

            def mk(st, k=k, t=t, g=g, L=L, good=good, want=want):
                d = o.room(st, "result") if t == "V" else ex.alloc(st, "result", None, "cell")
                p, v = o.fresh(st, k, "v")

                def post(s, r):
                    roots = [p]
                    if good():
                        if o.returned(s, r, L):
                            if t == "V":
                                o.is_(s, d, v, L + ": an equal value")
                                roots.append(d)
                            else:
                                ex.oblige(s, val_eq_(ex, s.g.get((g, d.obj, 0)), want(v)), L + ": the contents")
                    else:
                        o.thrown(s, r, TYPE_ERR, L)
                    o.is_(s, p, v, L + ": unchanged")
                    o.owned(s, roots, L)
                return [d, p], post
            o.run(L, r"get<%s ?>\(" % T, mk)
            L2 = "get(%s&)(%s)" % (t, k)

            def mk(st, k=k, t=t, g=g, L=L2, good=good, want=want):
                if t == "V":
                    d, old = o.fresh(st, "array", "target")
                else:
                    d = ex.alloc(st, "target", None, "cell")
                    old = st.g[(g, d.obj, 0)] = ex.fresh("old", dict(str=TXT, vec=SEQ, map=OBJ)[g])
                p, v = o.fresh(st, k, "v")

                def post(s, r):
                    if o.returned(s, r, L):
                        ok = good()
                        ex.oblige(s, toB(r[1]) == z3.BoolVal(ok), L + ": result")
                        if t == "V":
                            o.is_(s, d, v, L + ": the target")
                        else:
                            ex.oblige(s, val_eq_(ex, s.g.get((g, d.obj, 0)), want(v) if ok else old), L + ": the target")
                    o.is_(s, p, v, L + ": unchanged")
                    o.owned(s, [p] + ([d] if t == "V" else []), L)
                return [p, d], post
            o.run(L2, r"get_to<%s ?>\(" % T, mk)
    # values built from scalars, strings, containers and null
    def build(L, rx, arg, want, after=None):
        def mk(st):
            d = o.room(st, "value")
            q, x = arg(st)

            def post(s, r):
                if o.returned(s, r, L):
                    o.is_(s, d, want(x), L + ": holds it")
                    o.owned(s, [d], L)
                    if after:
                        after(s, q, x, L)
            return [d, q], post
        o.run(L, rx, mk)

    def cellarg(t):
        def f(st):
            q = ex.alloc(st, "x", 8, "cell")
            a, x = scalar_arg(o, t)
            ex.store_cell(st, q, 1 if t[1] == "boolean" else abs(t[2]) // 8, z3.If(a, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)) if t[1] == "boolean" else a)
            return q, x
        return f
    for t in SCALAR:
        build("value(%s)" % t[0], r"make<%s>\(" % t[0], cellarg(t), lambda x, t=t: conv_from(x, t))
    same_text = lambda s, q, x, L: ex.oblige(s, str_get(ex, s, q) == x, L + ": the argument is unchanged")
    build("value(string)", r"make<%s ?>\(" % NM["S"], lambda st: o.text(st, "x"), V.vstr, same_text)
    build("value(move(string))", r"make_m<%s ?>\(" % NM["S"], lambda st: o.text(st, "x"), V.vstr)

    def cstr(st):
        a, t = o.ckey(st, "x")
        q = ex.alloc(st, "x", 8, "cell")
        ex.store_cell(st, q, 8, a)
        return q, t
    build("value(C string)", r"make<%s const\*>\(" % ct, cstr, V.vstr)

    def nul(st):
        q = ex.alloc(st, "x", 8, "cell")
        ex.store_cell(st, q, 8, 0)
        return q, None
    build("value(nullptr)", r"make<decltype\(nullptr\)|make<std::nullptr_t", nul, lambda x: V.vnull)
