"""Values: ghost sorts for basic_value and its containers, the link from memory to ghost values, and the contracts of the
standard containers a value is made of (std::vector<basic_value>, std::map<string, basic_value>)."""
import re
import z3
from llir import Unsupported, PTR, IntTy, Ty
from sym import Ptr, NULL, Abs, Fn, UNDEF, State, simp, same, toB, bv, is_conc
from stdlib import TXT, EMPTY, PUT, LEN, R, str_get, str_set, split, TLT
from vc import Contract, Case, ANY

SEQ, OBJ = z3.DeclareSort("Seq"), z3.DeclareSort("Obj")
B64 = z3.BitVecSort(64)
_d = z3.Datatype("Value")
_d.declare("vnull")
_d.declare("vbool", ("b", z3.BoolSort()))
_d.declare("vint", ("i", B64))
_d.declare("vflt", ("f", z3.Float64()))
_d.declare("vstr", ("t", TXT))
_d.declare("varr", ("s", SEQ))
_d.declare("vobj", ("o", OBJ))
V = _d.create()
F = z3.Function
# sequences
SEMPTY = z3.Const("SEMPTY", SEQ)
SNOC = F("SNOC", SEQ, V, SEQ)
SLEN = F("SLEN", SEQ, B64)
SNTH = F("SNTH", SEQ, B64, V)
SSET = F("SSET", SEQ, B64, V, SEQ)
SDEL = F("SDEL", SEQ, B64, SEQ)               # without the element at a position
SDELR = F("SDELR", SEQ, B64, B64, SEQ)        # without the elements from one position up to another
SPAD = F("SPAD", SEQ, B64, V, SEQ)            # n copies of a value appended
SLT = F("SLT", SEQ, SEQ, z3.BoolSort())
SEQV = F("SEQV", SEQ, SEQ, z3.BoolSort())     # element-wise equality
# objects (ordered by key)
OEMPTY = z3.Const("OEMPTY", OBJ)
OINS = F("OINS", OBJ, TXT, V, OBJ)            # insert unless the key is there
OSET = F("OSET", OBJ, TXT, V, OBJ)            # insert or replace
ODEL = F("ODEL", OBJ, TXT, OBJ)
ODELI = F("ODELI", OBJ, B64, OBJ)             # without the member at a position
ODELR = F("ODELR", OBJ, B64, B64, OBJ)        # without the members from one position up to another
OHAS = F("OHAS", OBJ, TXT, z3.BoolSort())
OGET = F("OGET", OBJ, TXT, V)
OLEN = F("OLEN", OBJ, B64)
OKEY = F("OKEY", OBJ, B64, TXT)
OVAL = F("OVAL", OBJ, B64, V)
OFIND = F("OFIND", OBJ, TXT, B64)             # position of a key, OLEN if absent


# the same for keys that are literal texts, decided without the solver
def literal(k):
    """the characters of a literal text, None if it is not one"""
    out = []
    while z3.is_app_of(k, z3.Z3_OP_UNINTERPRETED) and k.decl().eq(PUT):
        if not z3.is_bv_value(k.arg(1)):
            return None
        out.append(k.arg(1).as_long())
        k = k.arg(0)
    return tuple(reversed(out)) if k.eq(EMPTY) else None


def lohas(o, k):
    lk = literal(k)
    if z3.is_app_of(o, z3.Z3_OP_DT_ACCESSOR):
        o = z3.simplify(o)
    while lk is not None and (head(o, OINS) or head(o, OSET)):
        j = literal(o.arg(1))
        if j is None:
            break
        if j == lk:
            return z3.BoolVal(True)
        o = o.arg(0)
    return z3.BoolVal(False) if o.eq(OEMPTY) else OHAS(o, k)


def loget(o, k):
    lk = literal(k)
    if z3.is_app_of(o, z3.Z3_OP_DT_ACCESSOR):
        o = z3.simplify(o)
    while lk is not None and (head(o, OINS) or head(o, OSET)):
        j = literal(o.arg(1))
        if j is None:
            break
        if j == lk:
            if head(o, OSET):
                return o.arg(2)
            h = lohas(o.arg(0), k)
            return o.arg(2) if z3.is_false(h) else loget(o.arg(0), k) if z3.is_true(h) else OGET(o, k)
        o = o.arg(0)
    return OGET(o, k)


def loset(o, k, v):
    """replacing what was just inserted"""
    if head(o, OINS) and o.arg(1).eq(k):
        o = o.arg(0)
    return OSET(o, k, v)
OLT = F("OLT", OBJ, OBJ, z3.BoolSort())
OEQV = F("OEQV", OBJ, OBJ, z3.BoolSort())

KINDS = ["null", "boolean", "integer", "floating", "string", "array", "object"]
IS = dict(null=V.is_vnull, boolean=V.is_vbool, integer=V.is_vint, floating=V.is_vflt, string=V.is_vstr, array=V.is_varr, object=V.is_vobj)
MAXLEN = z3.BitVecVal(1 << 58, 64)


def head(t, f):
    return z3.is_app(t) and t.decl().eq(f)


def c64(x):
    return z3.BitVecVal(int(x), 64) if is_conc(x) else x


def sset(s, i, v):
    if head(s, SNOC) and simp(SLEN(s.arg(0)) == c64(i)) is True:
        return SNOC(s.arg(0), v)
    return SSET(s, c64(i), v)


def axioms(th):
    """semantics of the sequence and object operations, instantiated on ground terms"""
    def slen(t):
        s = t.arg(0)
        r = [z3.ULT(t, MAXLEN), (t == 0) == (s == SEMPTY)]
        if head(s, SNOC):
            r.append(t == SLEN(s.arg(0)) + 1)
        elif head(s, SSET):
            r.append(t == SLEN(s.arg(0)))
        elif head(s, SDEL):
            r.append(t == SLEN(s.arg(0)) - 1)
        elif head(s, SDELR):
            r.append(t == SLEN(s.arg(0)) - (s.arg(2) - s.arg(1)))
        elif head(s, SPAD):
            r.append(t == SLEN(s.arg(0)) + s.arg(1))
        elif z3.is_app_of(s, z3.Z3_OP_ITE):
            r.append(t == z3.If(s.arg(0), SLEN(s.arg(1)), SLEN(s.arg(2))))
        return r
    th.lemma(SLEN, slen)

    def snth(t):
        s, i = t.children()
        if head(s, SNOC):
            a, v = s.children()
            return [t == z3.If(i == SLEN(a), v, SNTH(a, i))]
        if head(s, SSET):
            a, j, v = s.children()
            return [t == z3.If(i == j, v, SNTH(a, i))]
        if head(s, SPAD):
            a, n, v = s.children()
            return [t == z3.If(z3.ULT(i, SLEN(a)), SNTH(a, i), v)]
        if head(s, SDEL):
            a, j = s.children()
            return [t == z3.If(z3.ULT(i, j), SNTH(a, i), SNTH(a, i + 1))]
        if head(s, SDELR):
            a, j, k = s.children()
            return [t == z3.If(z3.ULT(i, j), SNTH(a, i), SNTH(a, i + (k - j)))]
        return []
    th.lemma(SNTH, snth)

    def olen(t):
        o = t.arg(0)
        r = [z3.ULT(t, MAXLEN), (t == 0) == (o == OEMPTY)]
        if head(o, OINS) or head(o, OSET):
            a, k, v = o.children()
            r.append(t == z3.If(OHAS(a, k), OLEN(a), OLEN(a) + 1))
        if head(o, ODEL):
            a, k = o.children()
            r.append(t == z3.If(OHAS(a, k), OLEN(a) - 1, OLEN(a)))
        if head(o, ODELI):
            r.append(t == OLEN(o.arg(0)) - 1)
        if head(o, ODELR):
            r.append(t == OLEN(o.arg(0)) - (o.arg(2) - o.arg(1)))
        return r
    th.lemma(OLEN, olen)

    def ohas(t):
        o, k = t.children()
        r = [z3.Implies(o == OEMPTY, z3.Not(t))]
        if head(o, OINS) or head(o, OSET):
            r.append(t == z3.Or(o.arg(1) == k, OHAS(o.arg(0), k)))
        if head(o, ODEL):
            r.append(t == z3.And(o.arg(1) != k, OHAS(o.arg(0), k)))
        r.append(t == z3.ULT(OFIND(o, k), OLEN(o)))
        return r
    th.lemma(OHAS, ohas)

    def oget(t):
        o, k = t.children()
        if head(o, OINS):
            a, j, v = o.children()
            return [t == z3.If(z3.And(j == k, z3.Not(OHAS(a, k))), v, OGET(a, k))]
        if head(o, OSET):
            a, j, v = o.children()
            return [t == z3.If(j == k, v, OGET(a, k))]
        if head(o, ODEL):
            a, j = o.children()
            return [z3.Implies(j != k, t == OGET(a, k))]
        return []
    th.lemma(OGET, oget)

    def ofind(t):
        o, k = t.children()
        return [z3.ULE(t, OLEN(o)), z3.ULT(t, OLEN(o)) == OHAS(o, k),
                z3.Implies(z3.ULT(t, OLEN(o)), z3.And(OKEY(o, t) == k, OVAL(o, t) == OGET(o, k)))]
    th.lemma(OFIND, ofind)
    th.lemma(OKEY, lambda t: [z3.Implies(z3.ULT(t.arg(1), OLEN(t.arg(0))), z3.And(OHAS(t.arg(0), t), OFIND(t.arg(0), t) == t.arg(1)))])
    th.lemma(OVAL, lambda t: [z3.Implies(z3.ULT(t.arg(1), OLEN(t.arg(0))), t == OGET(t.arg(0), OKEY(t.arg(0), t.arg(1))))])


# ------------------------------------------------------------------ memory representation
class Values:
    def __init__(self, ex):
        self.ex = ex
        self.T = ex.mod.enum("type")
        for k in KINDS:
            if k not in self.T:
                raise Unsupported("no value kind " + k)
        axioms(ex.th)
        ex.values = self
        A = ex.abs_cmp
        A[("conv", "vdata")] = self.conv
        A[("strtext", "vptr")] = self.vptr_text
        A[("eq", "vptr")] = lambda ex, x, y: False if isinstance(y, Ptr) else None
        A[("gep", "vit")] = self.it_gep
        A[("eq", "vit")] = lambda ex, x, y: self.it_eq(x, y)
        A[("eq", "mit")] = lambda ex, x, y: self.it_eq(x, y)
        for o in ("ult", "ule", "ugt", "uge"):
            A[(o, "vit")] = lambda ex, x, y, o=o: self.it_ord(o, x, y)
        A[("sub", "vit")] = self.it_sub
        ex.ghost_havoc["vec"] = lambda ex, v, k: ex.fresh("seq", SEQ)
        ex.ghost_havoc["map"] = lambda ex, v, k: ex.fresh("obj", OBJ)
        ex.ghost_havoc["elem"] = lambda ex, v, k: v
        ex.norm = self.norm
        ex.ghost_keep = ex.ghost_keep + ("elem",)
        ex.abs_havoc["vit"] = lambda ex, v, n: Abs("vit", v.d[0], ex.fresh(n, 64))
        ex.abs_havoc["mit"] = lambda ex, v, n: Abs("mit", v.d[0], ex.fresh(n, 64))
        ex.abs_havoc["vdata"] = lambda ex, v, n: Abs("vdata", ex.fresh(n, V))
        register(ex)

    # -- ghost type of a value term
    def vtype(self, v):
        T = self.T
        for k, f in IS.items():
            if head(v, f) or z3.is_app(v) and v.decl().name() == dict(null="vnull", boolean="vbool", integer="vint", floating="vflt", string="vstr", array="varr", object="vobj")[k]:
                return T[k]
        r = z3.BitVecVal(T["object"], 32)
        for k in KINDS[:-1]:
            r = z3.If(IS[k](v), z3.BitVecVal(T[k], 32), r)
        return r

    def conv(self, ex, x, sz, ty):
        v = x.d[0]
        if ty.k == "ptr":
            return Abs("vptr", v)
        if ty.k == "double":
            return simp(V.f(v))
        if ty.k == "i" and ty.n == 64:
            return simp(V.i(v))
        if ty.k == "i" and ty.n in (1, 8):
            b = simp(V.b(v))
            if ty.n == 1:
                return b
            return int(b) if isinstance(b, bool) else z3.If(b, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
        raise Unsupported("data of a value read as %r" % (ty,))

    def vptr_text(self, ex, st, p):
        v = p.d[0]
        ex.oblige(st, V.is_vstr(v), "text of a value that is a string")
        return simp(V.t(v))

    def put(self, st, p, v):
        """the value at p becomes the ghost value v"""
        ex = self.ex
        ex.store_cell(st, p, 4, self.vtype(v))
        ex.store_cell(st, Ptr(p.obj, p.off + 8), 8, Abs("vdata", v))

    def consume(self, st, p):
        """the value at p was moved from: its contents now belong to the target"""
        q = self.ex.get_cells(st, p.obj).get(p.off + 8)
        if q is not None and isinstance(q[1], Ptr) and q[1].obj is not None:
            h = q[1]
            for k in ("str", "vec", "map"):
                st.g.pop((k, h.obj, h.off), None)
            st.g.pop(("heap", h.obj), None)
            st.freed = st.freed | {h.obj}
        self.put(st, p, V.vnull)

    def new(self, st, v, name="value", kind="value"):
        p = self.ex.alloc(st, name, 16, kind)
        self.put(st, p, v)
        return p

    def rep(self, st, p):
        """the ghost value of the basic_value at p"""
        ex, T = self.ex, self.T
        if isinstance(p, Abs):
            p = self.deref(st, p)
        if p.obj is not None and p.obj in st.freed:
            ex.fail(st, "use of a destroyed value (%s)" % ex.objs[p.obj].name)
            return ex.fresh("dead", V)
        t = ex.load(st, p, IntTy(32))
        c = ex.get_cells(st, p.obj).get(p.off + 8)
        d = c[1] if c is not None and c[0] == 8 else None
        if isinstance(d, Abs) and d.kind == "vdata":
            v = d.d[0]
            if same(t, self.vtype(v)):
                return v
        if t is UNDEF:
            raise Unsupported("value without a type")
        if not is_conc(t):
            for k in KINDS:
                if not ex.feasible(st, t != z3.BitVecVal(T[k], 32)):
                    t = T[k]
                    break
            else:
                raise Unsupported("type of a value is not determined")
        q = Ptr(p.obj, p.off + 8)
        kd = [k for k in KINDS if T[k] == t]
        if not kd:
            raise Unsupported("value of unknown type %s" % t)
        kd = kd[0]
        if kd == "null":
            return V.vnull
        if kd == "boolean":
            b = ex.load(st, q, IntTy(8))
            if b is UNDEF:
                raise Unsupported("undefined boolean value")
            return V.vbool(z3.BoolVal(bool(b)) if is_conc(b) else b != 0)
        if kd == "integer":
            x = ex.load(st, q, IntTy(64))
            if x is UNDEF or isinstance(x, (Ptr, Abs)):
                raise Unsupported("undefined integer value")
            return V.vint(bv(x, 64))
        if kd == "floating":
            x = ex.load(st, q, Ty("double"))
            if x is UNDEF:
                raise Unsupported("undefined float value")
            if z3.is_bv(x):
                x = z3.fpBVToFP(x, z3.Float64())
            if isinstance(x, int):
                x = z3.fpBVToFP(z3.BitVecVal(x, 64), z3.Float64())
            return V.vflt(x)
        h = ex.load(st, q, PTR)
        if h is UNDEF or isinstance(h, Ptr) and h.obj is None:
            ex.fail(st, "%s value without contents" % kd)
            return ex.fresh("bad", V)
        if kd == "string":
            return V.vstr(str_get(ex, st, h))
        if kd == "array":
            return V.varr(self.vec(st, h))
        return V.vobj(self.map(st, h))

    # -- containers
    def vec(self, st, p):
        return self.content(st, p, "vec")

    def map(self, st, p):
        return self.content(st, p, "map")

    def content(self, st, p, kind):
        ex = self.ex
        if isinstance(p, Abs):
            if p.kind != "vptr":
                raise Unsupported("container at %r" % (p,))
            v = p.d[0]
            ex.oblige(st, V.is_varr(v) if kind == "vec" else V.is_vobj(v), "elements of a value that is an %s" % ("array" if kind == "vec" else "object"))
            return simp(V.s(v) if kind == "vec" else V.o(v))
        if p.obj in st.freed:
            ex.fail(st, "use of a destroyed container")
        self.sync(st, p)
        v = st.g.get((kind, p.obj, p.off))
        if v is None:
            raise Unsupported("uninitialised container %s" % ex.objs[p.obj].name)
        return v

    def setc(self, st, p, kind, v, invalidate=True):
        if isinstance(p, Abs):
            raise Unsupported("write to the container of an abstract value")
        if invalidate:
            self.drop(st, p)
        st.g[(kind, p.obj, p.off)] = v

    def elems(self, st, p):
        return [(k[1], r) for k, r in st.g.items() if isinstance(k, tuple) and k[0] == "elem" and r[0] == p.obj and r[1] == p.off]

    def sync(self, st, p):
        """write changed elements back to the ghost content of their container"""
        for ov, r in sorted(self.elems(st, p)):
            v = self.rep(st, Ptr(ov, r[5]))
            if not same(v, r[4]):
                k = (r[2], p.obj, p.off)
                others = [o for o, q in self.elems(st, p) if o != ov and not same(q[3], r[3])]
                if r[2] == "vec":
                    st.g[k] = sset(st.g[k], r[3], v)
                else:
                    st.g[k] = loset(st.g[k], r[3], v)
                st.g[("elem", ov)] = r[:4] + (v, r[5])
                for o in others:
                    q = st.g[("elem", o)]
                    if not (is_conc(q[3]) and is_conc(r[3])) and not (r[2] == "map" and literal(q[3]) is not None and literal(r[3]) is not None):
                        # may be the same element
                        if self.ex.feasible(st, q[3] == r[3] if r[2] == "map" else c64(q[3]) == c64(r[3])):
                            raise Unsupported("possibly aliased elements")

    def drop(self, st, p):
        """elements of p may move: references to them become dangling"""
        self.sync(st, p)
        for ov, r in self.elems(st, p):
            st.freed = st.freed | {ov}
            del st.g[("elem", ov)]

    def elem(self, st, p, kind, idx, v, off=0, size=16, key=None):
        """reference to the element idx (position, or key of an object) holding v"""
        if isinstance(p, Abs):
            q = self.new(st, v, "element")
            return q
        for ov, r in self.elems(st, p):
            if r[2] == kind and same(r[3], idx):
                return Ptr(ov, r[5])
        if kind == "map":
            q = self.ex.alloc(st, "member", 48, "value")
            st.g[("str", q.obj, 0)] = idx
            q = Ptr(q.obj, 32)
        else:
            q = self.ex.alloc(st, "element", 16, "value")
        self.put(st, q, v)
        st.g[("elem", q.obj)] = (p.obj, p.off, kind, idx, v, q.off)
        return q

    def pair(self, st, it):
        """the pair<const key, value> a map iterator points to"""
        ex = self.ex
        p, i = it.d[0], c64(it.d[1])
        o = self.map(st, p)
        ex.oblige(st, z3.ULT(i, OLEN(o)), "iterator points to a member")
        if head(i, OFIND) and i.arg(0).eq(o):
            key, v = i.arg(1), loget(o, i.arg(1))
        else:
            key, v = simp(OKEY(o, i)), simp(OVAL(o, i))
        if isinstance(p, Abs):
            q = ex.alloc(st, "member", 48, "value")
            st.g[("str", q.obj, 0)] = key
            self.put(st, Ptr(q.obj, 32), v)
            return q
        q = self.elem(st, p, "map", key, v)
        return Ptr(q.obj, q.off - 32)

    def deref(self, st, it):
        """element an iterator points to"""
        p, i = it.d[0], it.d[1]
        ex = self.ex
        if it.kind == "vit":
            s = self.vec(st, p)
            ex.oblige(st, z3.ULT(c64(i), SLEN(s)), "iterator points to an element")
            return self.elem(st, p, "vec", i, simp(SNTH(s, c64(i))))
        raise Unsupported("dereference of %r" % (it,))

    def norm(self, st, base):
        """back edge of a loop: references made inside the loop body are dropped"""
        for k in list(st.g):
            if isinstance(k, tuple) and k[0] == "elem" and (base is None or k not in base.g):
                r = st.g[k]
                if base is None:
                    self.sync(st, Ptr(r[0], r[1]))
                    continue
                self.sync(st, Ptr(r[0], r[1]))
                st.freed = st.freed | {k[1]}
                del st.g[k]

    # -- iterators as abstract pointers
    def it_gep(self, ex, base, ty, idxs):
        if len(idxs) != 1:
            if all(i == 0 for _, i in idxs):
                return base
            raise Unsupported("gep on an iterator")
        from llir import size_of
        it, iv = idxs[0]
        sz = size_of(ty) if ty.k not in ("void",) else 1
        if sz != 16:
            raise Unsupported("iterator arithmetic of unit %d" % sz)
        e = z3.BitVecVal(int(iv) - (1 << it.n) if int(iv) >> (it.n - 1) & 1 else int(iv), 64) if is_conc(iv) else (iv if it.n == 64 else z3.SignExt(64 - it.n, iv))
        return Abs("vit", base.d[0], simp(c64(base.d[1]) + e))

    def it_eq(self, x, y):
        if isinstance(y, Abs) and y.kind == x.kind and same(x.d[0], y.d[0]):
            return simp(c64(x.d[1]) == c64(y.d[1]))
        return None

    def it_ord(self, o, x, y):
        if not same(x.d[0], y.d[0]):
            raise Unsupported("iterators of different containers")
        a, b = c64(x.d[1]), c64(y.d[1])
        return simp({"ult": z3.ULT, "ule": z3.ULE, "ugt": z3.UGT, "uge": z3.UGE}[o](a, b))

    def it_sub(self, ex, x, y):
        if not same(x.d[0], y.d[0]):
            raise Unsupported("iterators of different containers")
        return simp((c64(x.d[1]) - c64(y.d[1])) * 16)


BV = r"configor::basic_value<configor::\w+>"
STR = r"std::__cxx11::basic_string<\w+>"
PRE = r"(?:^|[ &*])"
VEC = PRE + r"std::vector<%s, std::allocator<%s>>::" % (BV, BV)
MAP = PRE + r"std::map<%s, %s, std::less<%s>, std::allocator<std::pair<%s const, %s>>>::" % (STR, BV, STR, STR, BV)


def register(ex):
    """contracts of the containers of values"""
    vs = ex.values

    def fn(rx, label):
        def deco(h):
            ex.add_contract(rx, h, label, trusted=True, front=True)
            return h
        return deco

    def sig(name, m):
        d = ex.mod.dem(name)
        i = d.rindex("::" + m + "(") if "::" + m + "(" in d else d.rindex("::" + m + "<")
        return d[i + 2 + len(m):]

    # ---------------- vector
    @fn(VEC + r"vector\(", "std::vector<basic_value> constructors")
    def vctor(ex, st, name, args, I):
        s = sig(name, "vector")
        if s.startswith("()"):
            st.g[("vec", args[0].obj, args[0].off)] = SEMPTY
        elif re.match(r"\(std::vector<.*(const&|&&)\)$", s):
            c = vs.vec(st, args[1])
            st.g[("vec", args[0].obj, args[0].off)] = c
            if s.endswith("&&)"):
                vs.setc(st, args[1], "vec", SEMPTY)
        else:
            raise Unsupported(ex.mod.dem(name))
        return R(st)

    @fn(VEC + r"~vector\(", "std::vector<basic_value> destructor (destroys its elements)")
    def vdtor(ex, st, name, args, I):
        vs.vec(st, args[0])
        vs.drop(st, args[0])
        del st.g[("vec", args[0].obj, args[0].off)]
        return R(st)

    @fn(VEC + r"(push_back\(|emplace_back<)", "std::vector<basic_value>::push_back / emplace_back")
    def vpush(ex, st, name, args, I):
        d = ex.mod.dem(name)
        s = vs.vec(st, args[0])
        if len(args) != 2 or not re.search(r"configor::basic_value<[^<>]*>( const)?&+\)$", d):
            raise Unsupported(d)
        v = vs.rep(st, args[1])
        mv = d.endswith("&&)") and ("push_back" in d or re.search(r"emplace_back<configor::basic_value<[^<>]*>>\(", d))
        vs.setc(st, args[0], "vec", SNOC(s, v))
        if mv:
            vs.consume(st, args[1])
        return R(st)

    @fn(VEC + r"back\(\)", "std::vector<basic_value>::back")
    def vback(ex, st, name, args, I):
        s = vs.vec(st, args[0])
        ex.oblige(st, SLEN(s) != 0, "back() of a non-empty vector")
        i = simp(SLEN(s.arg(0))) if head(s, SNOC) else simp(SLEN(s) - 1)
        v = s.arg(1) if head(s, SNOC) else simp(SNTH(s, c64(i)))
        return R(st, vs.elem(st, args[0], "vec", i, v))

    @fn(VEC + r"size\(\)", "std::vector<basic_value>::size")
    def vsize(ex, st, name, args, I):
        s = vs.vec(st, args[0])
        return R(st, 0 if s.eq(SEMPTY) else simp(SLEN(s)))

    @fn(VEC + r"empty\(\)", "std::vector<basic_value>::empty")
    def vempty(ex, st, name, args, I):
        s = vs.vec(st, args[0])
        return R(st, True if s.eq(SEMPTY) else simp(SLEN(s) == 0))

    @fn(VEC + r"operator\[\]\(", "std::vector<basic_value>::operator[]")
    def vindex(ex, st, name, args, I):
        s = vs.vec(st, args[0])
        i = args[1]
        ex.oblige(st, z3.ULT(c64(i), SLEN(s)), "index into the vector in bounds")
        return R(st, vs.elem(st, args[0], "vec", i, simp(SNTH(s, c64(i)))))

    @fn(VEC + r"at\(", "std::vector<basic_value>::at")
    def vat(ex, st, name, args, I):
        s = vs.vec(st, args[0])
        i = args[1]
        outs = []
        for s1, ok in split(ex, st, z3.ULT(c64(i), SLEN(s))):
            if ok:
                outs.append((s1, ("ret", vs.elem(s1, args[0], "vec", i, simp(SNTH(s, c64(i)))))))
            else:
                outs.append((s1, ("throw", ex.make_exc(s1, "_ZTISt12out_of_range"))))
        return outs

    @fn(VEC + r"c?(begin|end)\(\)", "std::vector<basic_value>::begin / end")
    def vbegin(ex, st, name, args, I):
        d = ex.mod.dem(name)
        s = vs.vec(st, args[0])
        if re.search(r"::c?begin\(\)", d):
            return R(st, Abs("vit", args[0], 0))
        return R(st, Abs("vit", args[0], 0 if s.eq(SEMPTY) else simp(SLEN(s))))

    @fn(VEC + r"clear\(\)", "std::vector<basic_value>::clear")
    def vclear(ex, st, name, args, I):
        vs.vec(st, args[0])
        vs.setc(st, args[0], "vec", SEMPTY)
        return R(st)

    @fn(VEC + r"reserve\(", "std::vector<basic_value>::reserve")
    def vreserve(ex, st, name, args, I):
        vs.vec(st, args[0])
        vs.drop(st, args[0])
        return R(st)

    @fn(VEC + r"insert\(.*, unsigned long, ", "std::vector<basic_value>::insert(pos, n, value)")
    def vinsert(ex, st, name, args, I):
        s = vs.vec(st, args[0])
        it = args[1]
        if not (isinstance(it, Abs) and it.kind == "vit" and same(it.d[0], args[0])
                and (s.eq(SEMPTY) and is_conc(it.d[1]) and it.d[1] == 0 or simp(c64(it.d[1]) == SLEN(s)) is True)):
            raise Unsupported("insert not at the end")
        v = vs.rep(st, args[3])
        vs.setc(st, args[0], "vec", SPAD(s, c64(args[2]), v))
        return R(st, Abs("vit", args[0], it.d[1]))

    @fn(VEC + r"max_size\(\)", "std::vector<basic_value>::max_size")
    def vmax(ex, st, name, args, I):
        return R(st, (1 << 59) - 1)

    @fn(VEC + r"operator=\(", "std::vector<basic_value>::operator=")
    def vassign(ex, st, name, args, I):
        s = vs.vec(st, args[1])
        if not same(args[0], args[1]):
            if isinstance(args[1], Abs) and args[1].kind == "vptr" and isinstance(args[0], Ptr) and any(same(r[4], args[1].d[0]) for _, r in vs.elems(st, args[0])):
                ex.fail(st, "assign of a vector from one of its own elements")
                return []
            vs.vec(st, args[0])
            vs.setc(st, args[0], "vec", s)
            if "&&)" in ex.mod.dem(name):
                vs.setc(st, args[1], "vec", SEMPTY)
        return R(st, args[0])

    @fn(VEC + r"assign<", "std::vector<basic_value>::assign(first, last)")
    def vassign2(ex, st, name, args, I):
        a, b = args[1:3]
        if not (isinstance(a, Abs) and isinstance(b, Abs) and a.kind == b.kind == "vit" and same(a.d[0], b.d[0]) and is_conc(a.d[1]) and a.d[1] == 0):
            raise Unsupported("assign of part of a vector")
        s = vs.vec(st, a.d[0])
        ex.oblige(st, c64(b.d[1]) == SLEN(s), "assign of a whole vector")
        vs.vec(st, args[0])
        if same(a.d[0], args[0]):
            ex.fail(st, "assign of a vector from itself")
        vs.setc(st, args[0], "vec", s)
        return R(st)

    @fn(VEC + r"erase\(", "std::vector<basic_value>::erase")
    def verase(ex, st, name, args, I):
        s = vs.vec(st, args[0])
        it = args[1]
        if len(args) == 3:
            jt = args[2]
            if not all(isinstance(x, Abs) and x.kind == "vit" and same(x.d[0], args[0]) for x in (it, jt)):
                raise Unsupported("erase at %r" % (it,))
            i, j = c64(it.d[1]), c64(jt.d[1])
            ex.oblige(st, z3.And(z3.ULE(i, j), z3.ULE(j, SLEN(s))), "erased range exists")
            vs.setc(st, args[0], "vec", SDELR(s, i, j))
            return R(st, Abs("vit", args[0], it.d[1]))
        if not (isinstance(it, Abs) and it.kind == "vit" and same(it.d[0], args[0])):
            raise Unsupported("erase at %r" % (it,))
        ex.oblige(st, z3.ULT(c64(it.d[1]), SLEN(s)), "erased element exists")
        vs.setc(st, args[0], "vec", SDEL(s, c64(it.d[1])))
        return R(st, Abs("vit", args[0], it.d[1]))

    @fn(r"^bool std::operator(==|<)<configor::basic_value<[^()]*\(std::vector<", "std::vector<basic_value> comparison")
    def vcmp(ex, st, name, args, I):
        op = re.search(r"operator(==|<)<", ex.mod.dem(name)).group(1)
        a, b = vs.vec(st, args[0]), vs.vec(st, args[1])
        return R(st, simp((SEQV if op == "==" else SLT)(a, b)))

    # ---------------- map
    @fn(MAP + r"map\(", "std::map<string, basic_value> constructors")
    def mctor(ex, st, name, args, I):
        s = sig(name, "map")
        if s.startswith("()"):
            st.g[("map", args[0].obj, args[0].off)] = OEMPTY
        elif re.match(r"\(std::map<.*(const&|&&)\)$", s):
            c = vs.map(st, args[1])
            st.g[("map", args[0].obj, args[0].off)] = c
            if s.endswith("&&)"):
                vs.setc(st, args[1], "map", OEMPTY)
        else:
            raise Unsupported(ex.mod.dem(name))
        return R(st)

    @fn(MAP + r"~map\(", "std::map<string, basic_value> destructor (destroys its elements)")
    def mdtor(ex, st, name, args, I):
        vs.map(st, args[0])
        vs.drop(st, args[0])
        del st.g[("map", args[0].obj, args[0].off)]
        return R(st)

    @fn(MAP + r"operator=\(", "std::map<string, basic_value>::operator=")
    def massign(ex, st, name, args, I):
        o = vs.map(st, args[1])
        if not same(args[0], args[1]):
            vs.map(st, args[0])
            vs.setc(st, args[0], "map", o)
            if "&&)" in ex.mod.dem(name):
                vs.setc(st, args[1], "map", OEMPTY)
        return R(st, args[0])

    @fn(MAP + r"emplace<", "std::map<string, basic_value>::emplace")
    def memplace(ex, st, name, args, I):
        d = ex.mod.dem(name)
        m = re.search(r"::emplace<(.*?)>\((.*)\)$", d)
        if len(args) != 3:
            raise Unsupported(d)
        o = vs.map(st, args[0])
        k = str_get(ex, st, args[1])
        v = vs.rep(st, args[2])
        tys = m.group(2)
        vs.setc(st, args[0], "map", OINS(o, k, v), invalidate=False)
        if re.search(r"configor::basic_value<[^<>]*>&&$", tys):
            vs.consume(st, args[2])
        if re.search(r"^std::__cxx11::basic_string<\w+>&&", tys):
            str_set(ex, st, args[1], ex.fresh("moved_from", TXT))
        return R(st, (Abs("mit", args[0], OFIND(OINS(o, k, v), k)), simp(z3.Not(OHAS(o, k)))))

    RBIT = PRE + r"std::_Rb_tree(?:_const)?_iterator<std::pair<%s const, %s>>::" % (STR, BV)

    @fn(RBIT + r"operator(->|\*)\(\)", "std::map<string, basic_value>::iterator dereference")
    def mderef(ex, st, name, args, I):
        it = ex.load(st, args[0], PTR)
        if not (isinstance(it, Abs) and it.kind == "mit"):
            return None
        return R(st, vs.pair(st, it))

    @fn(r"^(_ZSt18_Rb_tree_incrementP|_ZSt18_Rb_tree_incrementPKSt|_ZSt18_Rb_tree_decrementP)", "std::map<string, basic_value>::iterator step")
    def mstep(ex, st, name, args, I):
        it = args[0]
        if not (isinstance(it, Abs) and it.kind == "mit"):
            return None
        o = vs.map(st, it.d[0])
        i = c64(it.d[1])
        inc = "increment" in name
        ex.oblige(st, z3.ULT(i, OLEN(o)) if inc else z3.And(i != 0, z3.ULE(i, OLEN(o))), "iterator step stays inside the map")
        return R(st, Abs("mit", it.d[0], simp(i + 1 if inc else i - 1)))

    @fn(MAP + r"size\(\)", "std::map<string, basic_value>::size")
    def msize(ex, st, name, args, I):
        o = vs.map(st, args[0])
        return R(st, 0 if o.eq(OEMPTY) else simp(OLEN(o)))

    @fn(MAP + r"empty\(\)", "std::map<string, basic_value>::empty")
    def mempty(ex, st, name, args, I):
        o = vs.map(st, args[0])
        return R(st, True if o.eq(OEMPTY) else simp(OLEN(o) == 0))

    @fn(MAP + r"clear\(\)", "std::map<string, basic_value>::clear")
    def mclear(ex, st, name, args, I):
        vs.map(st, args[0])
        vs.setc(st, args[0], "map", OEMPTY)
        return R(st)

    @fn(MAP + r"c?(begin|end)\(\)", "std::map<string, basic_value>::begin / end")
    def mbegin(ex, st, name, args, I):
        d = ex.mod.dem(name)
        o = vs.map(st, args[0])
        if re.search(r"::c?begin\(\)", d):
            return R(st, Abs("mit", args[0], 0))
        return R(st, Abs("mit", args[0], 0 if o.eq(OEMPTY) else simp(OLEN(o))))

    @fn(MAP + r"find\(", "std::map<string, basic_value>::find")
    def mfind(ex, st, name, args, I):
        o = vs.map(st, args[0])
        k = str_get(ex, st, args[1])
        if literal(k) is not None:
            h = lohas(o, k)
            if z3.is_false(h):
                return R(st, Abs("mit", args[0], 0 if o.eq(OEMPTY) else simp(OLEN(o))))
            if z3.is_true(h):
                st.assume(z3.ULT(OFIND(o, k), OLEN(o)))
        return R(st, Abs("mit", args[0], simp(OFIND(o, k))))

    @fn(MAP + r"at\(", "std::map<string, basic_value>::at")
    def mat(ex, st, name, args, I):
        o = vs.map(st, args[0])
        k = str_get(ex, st, args[1])
        outs = []
        for s, has in split(ex, st, lohas(o, k)):
            if has:
                outs.append((s, ("ret", vs.elem(s, args[0], "map", k, loget(o, k)))))
            else:
                outs.append((s, ("throw", ex.make_exc(s, "_ZTISt12out_of_range"))))
        return outs

    @fn(MAP + r"count\(", "std::map<string, basic_value>::count")
    def mcount(ex, st, name, args, I):
        o = vs.map(st, args[0])
        return R(st, z3.If(lohas(o, str_get(ex, st, args[1])), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))

    @fn(MAP + r"operator\[\]\(", "std::map<string, basic_value>::operator[]")
    def mindex(ex, st, name, args, I):
        o = vs.map(st, args[0])
        k = str_get(ex, st, args[1])
        if isinstance(args[0], Abs):
            raise Unsupported("operator[] of an abstract object")
        n = simp(OINS(o, k, V.vnull))
        vs.setc(st, args[0], "map", n, invalidate=False)
        return R(st, vs.elem(st, args[0], "map", k, loget(n, k)))

    @fn(MAP + r"erase\(std::__cxx11", "std::map<string, basic_value>::erase(key)")
    def merase(ex, st, name, args, I):
        o = vs.map(st, args[0])
        k = str_get(ex, st, args[1])
        vs.setc(st, args[0], "map", ODEL(o, k))
        return R(st, z3.If(OHAS(o, k), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))

    @fn(MAP + r"erase(\[abi:cxx11\])?\(std::_Rb_tree", "std::map<string, basic_value>::erase(iterator), erase(first, last)")
    def merase_it(ex, st, name, args, I):
        o = vs.map(st, args[0])
        its = args[1:]
        if not all(isinstance(x, Abs) and x.kind == "mit" and same(x.d[0], args[0]) for x in its) or len(its) not in (1, 2):
            raise Unsupported("erase at %r" % (its,))
        i = c64(its[0].d[1])
        if len(its) == 1:
            ex.oblige(st, z3.ULT(i, OLEN(o)), "erased member exists")
            n = ODELI(o, i)
        else:
            j = c64(its[1].d[1])
            ex.oblige(st, z3.And(z3.ULE(i, j), z3.ULE(j, OLEN(o))), "erased range exists")
            n = ODELR(o, i, j)
        vs.setc(st, args[0], "map", n)
        return R(st, Abs("mit", args[0], simp(i)))

    @fn(r"^bool std::operator(==|<)<[^()]*configor::basic_value<[^()]*\(std::map<", "std::map<string, basic_value> comparison")
    def mcmp(ex, st, name, args, I):
        op = re.search(r"operator(==|<)<", ex.mod.dem(name)).group(1)
        a, b = vs.map(st, args[0]), vs.map(st, args[1])
        return R(st, simp((OEQV if op == "==" else OLT)(a, b)))


def value_dtor(ex):
    """~basic_value as a contract (its body is verified under C10)"""
    vs = ex.values

    def h(ex, st, name, args, I):
        p = args[0]
        t = ex.load(st, p, IntTy(32))
        c = ex.get_cells(st, p.obj).get(p.off + 8)
        if c is not None and isinstance(c[1], Abs) and c[1].kind == "vdata":
            return R(st)
        if t is UNDEF:
            ex.fail(st, "destruction of an uninitialised value")
            return []
        if not is_conc(t):
            raise Unsupported("destruction of a value of undetermined type")
        k = [k for k in KINDS if vs.T[k] == t]
        if not k:
            ex.fail(st, "destruction of a value of unknown type")
            return []
        if k[0] in ("string", "array", "object"):
            q = ex.load(st, Ptr(p.obj, p.off + 8), PTR)
            if isinstance(q, Ptr):
                if q.obj is None or q.obj in st.freed:
                    ex.fail(st, "contents of a value released twice")
                    return []
                if k[0] != "string":
                    vs.drop(st, q)
                st.g.pop(({"string": "str", "array": "vec", "object": "map"}[k[0]], q.obj, q.off), None)
                st.freed = st.freed | {q.obj}
        return R(st)
    ex.add_contract(r"^configor::basic_value<configor::\w+>::~basic_value\(\)$", h, "~basic_value (verified under C10)", trusted=False, front=True)


def value_copy(ex):
    """copy construction from an abstract value as a contract (the body is verified under C10)"""
    vs = ex.values

    def h(ex, st, name, args, I):
        p = args[1]
        if isinstance(p, Ptr):
            c = ex.get_cells(st, p.obj).get(p.off + 8)
            if not (c is not None and isinstance(c[1], Abs) and c[1].kind == "vdata"):
                return None
        vs.put(st, args[0], vs.rep(st, p))
        return R(st)
    ex.add_contract(r"^configor::basic_value<configor::\w+>::basic_value\(configor::basic_value<configor::\w+> const&\)$", h,
                    "basic_value copy constructor (verified under C10)", trusted=False, front=True)
