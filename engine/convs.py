"""Conversions between values and containers, pointers and fixed-size arrays of a user type E of which nothing is known: its binder
is an arbitrary function TO (E -> value) and an arbitrary partial function FROM (value -> E, an error where it is undefined).  The
containers of E enter by contract; the conversion functions themselves are executed, with loop invariants over an arbitrary position
J (sequences), an arbitrary element X (sets) or an arbitrary key K (maps)."""
import re
from valops import *
from valops import Ops, element, val_eq_, R, c64, BVX
from values import STR, PRE, SEQ, OBJ
from stdlib import split

F = z3.Function
ARR = z3.ArraySort(B64, B64)
SETS = z3.ArraySort(B64, z3.BoolSort())
MHAS, MGET = z3.ArraySort(TXT, z3.BoolSort()), z3.ArraySort(TXT, B64)
TO = F("TO", B64, V)                    # the value an element converts to
ACC = F("ACC", V, z3.BoolSort())        # a value an element can be made from
FROM = F("FROM", V, B64)
EDEF = z3.Const("EDEF", B64)            # a default constructed element
# iteration order of sets and maps
ELEN = F("ELEN", SETS, B64)
ENTH = F("ENTH", SETS, B64, B64)
EPOS = F("EPOS", SETS, B64, B64)
KLEN = F("KLEN", MHAS, B64)
KNTH = F("KNTH", MHAS, B64, TXT)
KPOS = F("KPOS", MHAS, TXT, B64)
# elements of the first n values
MEM = F("MEM", SEQ, B64, B64, z3.BoolSort())
SMALL = z3.BitVecVal(1 << 58, 64)

SEQS = ("vector", "deque", "list", "forward_list")
ALLOC = r"std::allocator<E>"
SEQRX = PRE + r"std::(?:__cxx11::)?(?:vector|deque|list|forward_list)<E, %s>::" % ALLOC
SETRX = PRE + r"std::(?:set<E, std::less<E>, %s>|unordered_set<E, std::hash<E>, std::equal_to<E>, %s>)::" % (ALLOC, ALLOC)
PAIRS = r"std::allocator<std::pair<%s const, E>>" % STR
MAPRX = PRE + r"std::(?:map<%s, E, std::less<%s>, %s>|unordered_map<%s, E, std::hash<%s>, std::equal_to<%s>, %s>)::" % (STR, STR, PAIRS, STR, STR, STR, PAIRS)
DQIT = r"_Deque_iterator<E, E(?: const)?&, E(?: const)?\*>"
ITRX = PRE + r"std::(?:" + DQIT + r"|_List_(?:const_)?iterator<E>|_Fwd_list_(?:const_)?iterator<E>|_Rb_tree_(?:const_)?iterator<E>|_Rb_tree_(?:const_)?iterator<std::pair<%s const, E>>|__detail::_Node_(?:const_)?iterator<E, \w+, \w+>|__detail::_Node_(?:const_)?iterator<std::pair<%s const, E>, \w+, \w+>)::" % (STR, STR)


class Conv(Ops):
    def __init__(self, mod, ct):
        Ops.__init__(self, mod, ct)
        ex = self.ex
        self.J, self.X, self.K = z3.BitVec("J", 64), z3.BitVec("X", 64), z3.Const("K", TXT)
        A = ex.abs_cmp
        A[("gep", "celt")] = self.gep
        A[("eq", "celt")] = self.iteq
        A[("eq", "cit")] = self.iteq
        ex.abs_havoc["celt"] = lambda ex, v, n: Abs("celt", v.d[0], ex.fresh(n, 64))
        ex.abs_havoc["cit"] = lambda ex, v, n: Abs("cit", v.d[0], ex.fresh(n, 64))
        H = ex.ghost_havoc
        H["clen"] = lambda ex, v, k: ex.fresh("clen", 64)
        H["cfront"] = lambda ex, v, k: ex.fresh("cfront", 64)
        H["carr"] = lambda ex, v, k: z3.Const(ex.fresh("carr", 64).decl().name(), ARR)
        H["cset"] = lambda ex, v, k: z3.Const(ex.fresh("cset", 64).decl().name(), SETS)
        H["chas"] = lambda ex, v, k: z3.Const(ex.fresh("chas", 64).decl().name(), MHAS)
        H["cget"] = lambda ex, v, k: z3.Const(ex.fresh("cget", 64).decl().name(), MGET)
        th = ex.th
        th.lemma(ELEN, lambda t: [z3.ULT(t, SMALL)])
        th.lemma(ENTH, lambda t: [z3.Implies(z3.ULT(t.arg(1), ELEN(t.arg(0))), z3.And(z3.Select(t.arg(0), t), EPOS(t.arg(0), t) == t.arg(1)))])
        th.lemma(EPOS, lambda t: [z3.Select(t.arg(0), t.arg(1)) == z3.ULT(t, ELEN(t.arg(0))), z3.Implies(z3.ULT(t, ELEN(t.arg(0))), ENTH(t.arg(0), t) == t.arg(1))])
        th.lemma(KLEN, lambda t: [z3.ULT(t, SMALL)])
        th.lemma(KNTH, lambda t: [z3.Implies(z3.ULT(t.arg(1), KLEN(t.arg(0))), z3.And(z3.Select(t.arg(0), t), KPOS(t.arg(0), t) == t.arg(1)))])
        th.lemma(KPOS, lambda t: [z3.Select(t.arg(0), t.arg(1)) == z3.ULT(t, KLEN(t.arg(0))), z3.Implies(z3.ULT(t, KLEN(t.arg(0))), KNTH(t.arg(0), t) == t.arg(1))])

        def mem(t):
            s, n, x = t.children()
            m = z3.simplify(n - 1)
            r = [z3.Implies(n == 0, z3.Not(t))]
            if z3.is_app_of(n, z3.Z3_OP_BADD):      # unfolded once per step of a loop
                r.append(z3.Implies(n != 0, t == z3.Or(FROM(SNTH(s, m)) == x, MEM(s, m, x))))
            return r
        th.lemma(MEM, mem)
        self.contracts()

    # ------------------------------------------------------------ abstract element references
    def gep(self, ex, base, ty, idxs):
        from llir import size_of
        it, iv = idxs[0]
        if any(not (is_conc(i) and i == 0) for _, i in idxs[1:]):
            raise Unsupported("gep into an element")
        if is_conc(iv) and iv == 0:
            return base
        if size_of(ty) != 8:
            raise Unsupported("element step")
        e = z3.BitVecVal(int(iv), 64) if is_conc(iv) else iv
        return Abs(base.kind, base.d[0], simp(c64(base.d[1]) + e))

    def iteq(self, ex, x, y):
        if isinstance(y, Abs) and y.kind == x.kind and same(x.d[0], y.d[0]):
            return simp(c64(x.d[1]) == c64(y.d[1]))
        if isinstance(y, Ptr) and y.obj is None:
            return False
        return None

    def eid(self, st, p):
        """the element at p"""
        if isinstance(p, Abs) and p.kind == "celt":
            c, i = p.d[0], c64(p.d[1])
            self.ex.oblige(st, z3.ULT(i, self.g(st, "clen", c)), "element of the container exists")
            return simp(z3.Select(self.g(st, "carr", c), i + self.g(st, "cfront", c)))
        x = self.ex.load(st, p, IntTy(64))
        if x is UNDEF or isinstance(x, (Ptr, Abs)):
            self.ex.fail(st, "use of an element that was not constructed")
            return self.ex.fresh("undef", 64)
        return c64(x)

    def seteid(self, st, p, x):
        if isinstance(p, Abs) and p.kind == "celt":
            c, i = p.d[0], c64(p.d[1])
            self.ex.oblige(st, z3.ULT(i, self.g(st, "clen", c)), "element of the container exists")
            self.s(st, "carr", c, simp(z3.Store(self.g(st, "carr", c), i + self.g(st, "cfront", c), x)))
        else:
            self.ex.store(st, p, IntTy(64), x)

    def g(self, st, k, p):
        v = st.g.get((k, p.obj, p.off))
        if v is None:
            raise Unsupported("uninitialised container %s %s" % (k, self.ex.objs[p.obj].name))
        return v

    def s(self, st, k, p, v):
        st.g[(k, p.obj, p.off)] = v

    # ------------------------------------------------------------ contracts
    def contracts(self):
        ex, vs, o = self.ex, self.vs, self

        def fn(rx, label, trusted=True):
            def deco(h):
                ex.add_contract(rx, h, label, trusted=trusted, front=True)
                return h
            return deco

        def method(d, cls):
            """name and parameter list of a member function"""
            d = d.split("[abi")[0] + d.split("]", 1)[1] if "[abi" in d else d
            m = re.search(cls + r"(~?\w+|operator\[\]|operator=|operator\*|operator->|operator\+\+|operator--|operator[!=]=)(<.*>)?\((.*?)\)(?: const)?$", d)
            if not m:
                raise Unsupported(d)
            return m.group(1), m.group(3)

        # -- the element type
        @fn(r"^E::E\(\)$", "E(): a default element")
        def edef(ex, st, name, args, I):
            o.seteid(st, args[0], EDEF)
            return R(st)

        @fn(r"^E::E\(E const&\)$", "E(const E&): copies")
        def ecopy(ex, st, name, args, I):
            o.seteid(st, args[0], o.eid(st, args[1]))
            return R(st)

        @fn(r"^E::operator=\(E const&\)$", "E::operator=: copies")
        def eassign(ex, st, name, args, I):
            o.seteid(st, args[0], o.eid(st, args[1]))
            return R(st, args[0])

        @fn(r"^E::~E\(\)$", "~E()")
        def edtor(ex, st, name, args, I):
            return R(st)

        @fn(r"^configor::value_binder<E>::to_value\(", "binder of E: to_value makes the value TO(e)")
        def eto(ex, st, name, args, I):
            x = o.eid(st, args[1])
            vs.rep(st, args[0])
            vs.consume(st, args[0])
            vs.put(st, args[0], TO(x))
            return R(st)

        @fn(r"^configor::value_binder<E>::from_value\(", "binder of E: from_value makes FROM(v) or raises an error")
        def efrom(ex, st, name, args, I):
            v = vs.rep(st, args[0])
            outs = []
            for s, ok in split(ex, st, ACC(v)):
                if ok:
                    o.seteid(s, args[1], FROM(v))
                    outs.append((s, ("ret", None)))
                else:
                    s.g["bad"] = v
                    outs.append((s, ("throw", ex.make_exc(s, TYPE_ERR))))
            return outs

        # -- sequences
        def new(st, p, n=0, arr=None):
            o.s(st, "clen", p, c64(n))
            o.s(st, "cfront", p, z3.BitVecVal(0, 64))
            o.s(st, "carr", p, arr if arr is not None else z3.Const(ex.fresh("arr", 64).decl().name(), ARR))

        @fn(SEQRX, "std::vector, deque, list, forward_list of E")
        def seq(ex, st, name, args, I):
            d = ex.mod.dem(name)
            m, ps = method(d, SEQRX)
            p = args[0]
            if m in SEQS:
                if not ps:
                    new(st, p)
                elif re.match(r"std::(__cxx11::)?%s<E, %s>( const&|&&)$" % (m, ALLOC), ps):
                    for k in ("clen", "cfront", "carr"):
                        o.s(st, k, p, o.g(st, k, args[1]))
                    if ps.endswith("&&"):
                        new(st, args[1])
                else:
                    raise Unsupported(d)
                return R(st)
            if m in ("begin", "end", "cbegin", "cend"):
                if "deque" in d.split("::" + m)[0]:     # iterators of four words: the first holds the position
                    ex.store(st, p, PTR, Abs("cit", args[1], 0 if "begin" in m else simp(o.g(st, "clen", args[1]))))
                    return R(st)
                k = "celt" if re.search(r"std::vector<E, [^()]*>::c?(begin|end)\(", d) else "cit"
                return R(st, Abs(k, p, 0 if "begin" in m else simp(o.g(st, "clen", p))))
            n, a, fr = o.g(st, "clen", p), o.g(st, "carr", p), o.g(st, "cfront", p)
            if m.startswith("~"):
                for k in ("clen", "cfront", "carr"):
                    del st.g[(k, p.obj, p.off)]
                return R(st)
            if m == "size":
                return R(st, simp(n))
            if m == "empty":
                return R(st, simp(n == 0))
            if m == "max_size":
                return R(st, (1 << 60) - 1)
            if m in ("reserve", "shrink_to_fit"):
                return R(st)
            if m == "clear":
                o.s(st, "clen", p, z3.BitVecVal(0, 64))
                return R(st)
            if m == "resize" and len(args) == 2:
                b = z3.Const(ex.fresh("arr", 64).decl().name(), ARR)
                st.assume(z3.Select(b, o.J + fr) == z3.If(z3.ULT(o.J, n), z3.Select(a, o.J + fr), EDEF))
                o.s(st, "clen", p, c64(args[1]))
                o.s(st, "carr", p, b)
                return R(st)
            if m == "operator[]":
                ex.oblige(st, z3.ULT(c64(args[1]), n), "index into the container in bounds")
                return R(st, Abs("celt", p, args[1]))
            if m == "at":
                outs = []
                for s1, ok in split(ex, st, z3.ULT(c64(args[1]), n)):
                    outs.append((s1, ("ret", Abs("celt", p, args[1]))) if ok else (s1, ("throw", ex.make_exc(s1, RANGE_ERR))))
                return outs
            if m in ("front", "back") and not args[1:]:
                ex.oblige(st, n != 0, m + "() of a non-empty container")
                return R(st, Abs("celt", p, 0 if m == "front" else simp(n - 1)))
            if m in ("push_back", "emplace_back") and len(args) == 2 and re.search(r"^E( const)?&+$", ps):
                x = o.eid(st, args[1])
                o.s(st, "carr", p, z3.Store(a, simp(n + fr), x))
                o.s(st, "clen", p, z3.simplify(n + 1))
                return R(st, Abs("celt", p, simp(n)))
            if m in ("push_front", "emplace_front") and len(args) == 2 and re.search(r"^E( const)?&+$", ps):
                x = o.eid(st, args[1])
                f2 = z3.simplify(fr - 1)
                o.s(st, "carr", p, z3.Store(a, f2, x))
                o.s(st, "cfront", p, f2)
                o.s(st, "clen", p, z3.simplify(n + 1))
                return R(st, Abs("celt", p, 0))
            if m == "operator=" and re.match(r"std::(__cxx11::)?\w+<E, %s>( const&|&&)$" % ALLOC, ps):
                if not same(p, args[1]):
                    for k in ("clen", "cfront", "carr"):
                        o.s(st, k, p, o.g(st, k, args[1]))
                    if ps.endswith("&&"):
                        new(st, args[1])
                return R(st, p)
            raise Unsupported(d)

        # -- sets
        NOSET = z3.K(B64, z3.BoolVal(False))

        @fn(SETRX, "std::set, unordered_set of E")
        def set_(ex, st, name, args, I):
            d = ex.mod.dem(name)
            m, ps = method(d, SETRX)
            p = args[0]
            if m in ("set", "unordered_set"):
                if not ps:
                    o.s(st, "cset", p, NOSET)
                elif re.search(r"std::(unordered_)?set<.*(const&|&&)$", ps):
                    o.s(st, "cset", p, o.g(st, "cset", args[1]))
                    if ps.endswith("&&"):
                        o.s(st, "cset", args[1], NOSET)
                else:
                    raise Unsupported(d)
                return R(st)
            c = o.g(st, "cset", p)
            if m.startswith("~"):
                del st.g[("cset", p.obj, p.off)]
                return R(st)
            if m in ("begin", "cbegin"):
                return R(st, Abs("cit", p, 0))
            if m in ("end", "cend"):
                return R(st, Abs("cit", p, ELEN(c)))
            if m == "size":
                return R(st, ELEN(c))
            if m == "empty":
                return R(st, ELEN(c) == 0)
            if m in ("reserve", "rehash"):
                return R(st)
            if m == "clear":
                o.s(st, "cset", p, NOSET)
                return R(st)
            if m in ("insert", "emplace", "emplace_hint") and re.search(r"E( const)?&+$", ps):
                x = o.eid(st, args[-1])
                o.s(st, "cset", p, z3.Store(c, x, z3.BoolVal(True)))
                it = Abs("cit", p, EPOS(c, x))
                return R(st, (it, simp(z3.Not(z3.Select(c, x)))) if len(args) == 2 else it)
            if m == "operator=":
                if not same(p, args[1]):
                    o.s(st, "cset", p, o.g(st, "cset", args[1]))
                    if ps.endswith("&&"):
                        o.s(st, "cset", args[1], NOSET)
                return R(st, p)
            raise Unsupported(d)

        # -- maps
        NOKEY = z3.K(TXT, z3.BoolVal(False))

        @fn(MAPRX, "std::map, unordered_map of string to E")
        def map_(ex, st, name, args, I):
            d = ex.mod.dem(name)
            m, ps = method(d, MAPRX)
            p = args[0]

            def put(q, h, v):
                o.s(st, "chas", q, h)
                o.s(st, "cget", q, v)
            anyv = lambda: z3.Const(ex.fresh("cget", 64).decl().name(), MGET)
            if m in ("map", "unordered_map"):
                if not ps:
                    put(p, NOKEY, anyv())
                elif re.search(r"std::(unordered_)?map<.*(const&|&&)$", ps):
                    put(p, o.g(st, "chas", args[1]), o.g(st, "cget", args[1]))
                    if ps.endswith("&&"):
                        put(args[1], NOKEY, anyv())
                else:
                    raise Unsupported(d)
                return R(st)
            h, v = o.g(st, "chas", p), o.g(st, "cget", p)
            if m.startswith("~"):
                del st.g[("chas", p.obj, p.off)], st.g[("cget", p.obj, p.off)]
                return R(st)
            if m in ("begin", "cbegin"):
                return R(st, Abs("cit", p, 0))
            if m in ("end", "cend"):
                return R(st, Abs("cit", p, KLEN(h)))
            if m == "size":
                return R(st, KLEN(h))
            if m == "empty":
                return R(st, KLEN(h) == 0)
            if m in ("reserve", "rehash"):
                return R(st)
            if m == "clear":
                put(p, NOKEY, v)
                return R(st)
            if m == "count":
                return R(st, z3.If(z3.Select(h, str_get(ex, st, args[1])), z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
            if m == "find":
                return R(st, Abs("cit", p, KPOS(h, str_get(ex, st, args[1]))))
            if m == "emplace" and len(args) == 3 and re.search(r", E( const)?&+$", ps):
                k, x = str_get(ex, st, args[1]), o.eid(st, args[2])
                put(p, z3.Store(h, k, z3.BoolVal(True)), z3.If(z3.Select(h, k), v, z3.Store(v, k, x)))
                return R(st, (Abs("cit", p, KPOS(z3.Store(h, k, z3.BoolVal(True)), k)), simp(z3.Not(z3.Select(h, k)))))
            if m == "operator[]":
                k = str_get(ex, st, args[1])
                v2 = z3.If(z3.Select(h, k), v, z3.Store(v, k, EDEF))
                put(p, z3.Store(h, k, z3.BoolVal(True)), v2)
                return R(st, Abs("mref", p, k))
            if m == "operator=":
                if not same(p, args[1]):
                    put(p, o.g(st, "chas", args[1]), o.g(st, "cget", args[1]))
                    if ps.endswith("&&"):
                        put(args[1], NOKEY, anyv())
                return R(st, p)
            raise Unsupported(d)

        oldget, oldset = self.eid, self.seteid

        def eid(st, p):
            if isinstance(p, Abs) and p.kind == "mref":
                return z3.Select(o.g(st, "cget", p.d[0]), p.d[1])
            return oldget(st, p)

        def seteid(st, p, x):
            if isinstance(p, Abs) and p.kind == "mref":
                o.s(st, "cget", p.d[0], z3.Store(o.g(st, "cget", p.d[0]), p.d[1], x))
                return
            oldset(st, p, x)
        self.eid, self.seteid = eid, seteid

        # -- their iterators
        def length(st, p):
            if ("clen", p.obj, p.off) in st.g:
                return o.g(st, "clen", p)
            return ELEN(o.g(st, "cset", p)) if ("cset", p.obj, p.off) in st.g else KLEN(o.g(st, "chas", p))

        @fn(ITRX + r"operator(\*|->|\+\+|--)", "iterators of the containers of E")
        def iters(ex, st, name, args, I):
            d = ex.mod.dem(name)
            m, ps = method(d, ITRX)
            sret = args[0] if len(args) > 2 else None
            slot = args[1] if sret is not None else args[0]
            it = ex.load(st, slot, PTR)
            if not (isinstance(it, Abs) and it.kind == "cit"):
                raise Unsupported(d)
            p, i = it.d[0], c64(it.d[1])
            n = length(st, p)
            if m in ("operator++", "operator--"):
                ex.oblige(st, z3.ULT(i, n) if m == "operator++" else z3.And(i != 0, z3.ULE(i, n)), "iterator step stays inside the container")
                ex.store(st, slot, PTR, Abs("cit", p, z3.simplify(i + 1 if m == "operator++" else i - 1)))
                if sret is not None:
                    ex.store(st, sret, PTR, it)
                    return R(st)
                return R(st, it if ps else slot)
            ex.oblige(st, z3.ULT(i, n), "iterator points to an element")
            if ("clen", p.obj, p.off) in st.g:
                return R(st, Abs("celt", p, it.d[1]))
            if ("cset", p.obj, p.off) in st.g:
                q = ex.alloc(st, "element", 8, "E")
                o.seteid(st, q, simp(ENTH(o.g(st, "cset", p), i)))
                return R(st, q)
            k = simp(KNTH(o.g(st, "chas", p), i))
            q = ex.alloc(st, "pair", 40, "pair")
            st.g[("str", q.obj, 0)] = k
            o.seteid(st, Ptr(q.obj, 32), z3.Select(o.g(st, "cget", p), k))
            return R(st, q)

        @fn(PRE + "std::" + DQIT + "::_Deque_iterator(<.*>)?\\(std::" + DQIT + r" const&\)$", "copies of the iterators of deques")
        def dqcopy(ex, st, name, args, I):
            ex.store(st, args[0], PTR, ex.load(st, args[1], PTR))
            return R(st)

        CMP = r"(std::" + DQIT + r"|std::_List_(const_)?iterator<E>|std::_Fwd_list_(const_)?iterator<E>|std::_Rb_tree_(const_)?iterator<(E|std::pair<%s const, E>)>|std::__detail::_Node_iterator_base<(E|std::pair<%s const, E>), \w+>)" % (STR, STR)

        @fn(r"(^| )std::(__detail::)?operator[!=]=(<.*>)?\(%s const&, %s const&\)$" % (CMP, CMP), "comparison of iterators of the containers of E")
        def itcmp(ex, st, name, args, I):
            a, b = ex.load(st, args[0], PTR), ex.load(st, args[1], PTR)
            r = o.iteq(ex, a, b) if isinstance(a, Abs) else None
            if r is None:
                raise Unsupported(ex.mod.dem(name))
            return R(st, r if "operator==" in ex.mod.dem(name) else simp(z3.Not(toB(r))))

        # -- shared_ptr: the pointer is kept in the first word
        SP = PRE + r"std::shared_ptr<E>::"

        @fn(SP, "std::shared_ptr of E")
        def sp(ex, st, name, args, I):
            d = ex.mod.dem(name)
            if "shared_ptr<E>::operator bool" in d:
                q = ex.load(st, args[0], PTR)
                return R(st, q.obj is not None)
            m, ps = method(d, SP)
            p = args[0]
            if m == "shared_ptr":
                if ps in ("", "std::nullptr_t"):
                    ex.store(st, p, PTR, NULL)
                elif re.match(r"std::shared_ptr<E>( const&|&&)$", ps):
                    ex.store(st, p, PTR, ex.load(st, args[1], PTR))
                    if ps.endswith("&&"):
                        ex.store(st, args[1], PTR, NULL)
                elif ps == "E*":
                    ex.store(st, p, PTR, args[1])
                else:
                    raise Unsupported(d)
                return R(st)
            if m == "~shared_ptr":
                return R(st)
            if m == "operator=":
                q = ex.load(st, args[1], PTR)
                if ps.endswith("&&"):
                    ex.store(st, args[1], PTR, NULL)
                ex.store(st, p, PTR, q)
                return R(st, p)
            if m == "reset":
                ex.store(st, p, PTR, args[1] if len(args) > 1 else NULL)
                return R(st)
            raise Unsupported(d)

        @fn(PRE + r"std::__shared_ptr(_access)?<E, [^()]*>::(operator\*|operator->|get)\(\)", "std::shared_ptr<E> dereference")
        def spd(ex, st, name, args, I):
            q = ex.load(st, args[0], PTR)
            if "operator" in ex.mod.dem(name):
                ex.oblige(st, isinstance(q, Ptr) and q.obj is not None, "a shared_ptr is dereferenced only if it holds an object")
            return R(st, q)

        @fn(r" std::make_shared<E, E( const)?&?>\(", "std::make_shared<E>")
        def mks(ex, st, name, args, I):
            q = ex.alloc(st, "shared E", 8, "E")
            o.seteid(st, q, o.eid(st, args[1]))
            ex.store(st, args[0], PTR, q)
            return R(st)

    # ------------------------------------------------------------ containers with arbitrary contents
    def box(self, st, c, name="x"):
        """an arbitrary container -> address"""
        ex = self.ex
        if c in SEQS:
            p = ex.alloc(st, name, 80, c)
            n = ex.fresh(name + ".len", 64)
            st.assume(z3.ULT(n, SMALL))
            self.s(st, "clen", p, n)
            self.s(st, "cfront", p, z3.BitVecVal(0, 64))
            self.s(st, "carr", p, z3.Const(ex.fresh(name + ".arr", 64).decl().name(), ARR))
        elif "set" in c:
            p = ex.alloc(st, name, 56, c)
            self.s(st, "cset", p, z3.Const(ex.fresh(name + ".set", 64).decl().name(), SETS))
        elif "map" in c:
            p = ex.alloc(st, name, 56, c)
            self.s(st, "chas", p, z3.Const(ex.fresh(name + ".has", 64).decl().name(), MHAS))
            self.s(st, "cget", p, z3.Const(ex.fresh(name + ".get", 64).decl().name(), MGET))
        elif c in ("array", "carray"):
            p = ex.alloc(st, name, 24, c)
            for i in range(3):
                ex.store(st, Ptr(p.obj, 8 * i), IntTy(64), ex.fresh(name + ".e%d" % i, 64))
        return p

    def raw(self, st, c, name="out"):
        return self.ex.alloc(st, name, 80, c)

    def nth(self, st, p, c, i):
        """the element at position i, as a term"""
        if c in SEQS:
            return z3.Select(self.g(st, "carr", p), c64(i) + self.g(st, "cfront", p))
        if "set" in c:
            return ENTH(self.g(st, "cset", p), c64(i))
        return c64(self.ex.load(st, Ptr(p.obj, p.off + 8 * i), IntTy(64)))

    def len(self, st, p, c):
        if c in SEQS:
            return self.g(st, "clen", p)
        if "set" in c:
            return ELEN(self.g(st, "cset", p))
        if "map" in c:
            return KLEN(self.g(st, "chas", p))
        return z3.BitVecVal(3, 64)


TY = dict(vector=r"std::vector<E, [^()]*>", deque=r"std::deque<E, [^()]*>", list=r"std::__cxx11::list<E, [^()]*>", forward_list=r"std::forward_list<E, [^()]*>",
          set=r"std::set<E, [^()]*>", unordered_set=r"std::unordered_set<E, [^()]*>", map=r"std::map<%s, E, [^()]*>" % STR, unordered_map=r"std::unordered_map<%s, E, [^()]*>" % STR,
          unique_ptr=r"std::unique_ptr<E, [^()]*>", shared_ptr=r"std::shared_ptr<E>", array=r"std::array<E, 3ul>", carray=r"E ?\[3\]")
CONTS = [c for c in TY if "ptr" not in c]


def wrong(c, k):
    """a value of kind k holds no such container"""
    if k == "null":
        return False
    return k != ("object" if "map" in c else "array")


def ops_c14(o):
    ex, vs = o.ex, o.vs
    cur = {}
    J, X, K = o.J, o.X, o.K
    ex.rounds = 8                   # fixed-size targets have three elements

    def cells(st, M):
        """how to read the counters and positions changed by a loop"""
        out = []
        for m in sorted(M, key=repr):
            if m[0] != "cell":
                continue

            def G(s, ob=m[1], off=m[2]):
                x = ex.get_cells(s, ob).get(off, (0, None))[1]
                if isinstance(x, Abs) and x.kind in ("vit", "mit", "cit", "celt"):
                    return c64(x.d[1])
                if x is not None and x is not UNDEF and (is_conc(x) or z3.is_bv(x)) and not isinstance(x, bool):
                    return c64(x) if is_conc(x) else x if x.size() == 64 else None
                return None
            if G(st) is not None:
                out.append(("%d.%d" % (m[1], m[2]), G))
        return out

    def pool(ex, st, f, header, M):
        if not cur:
            return []
        cs = cells(st, M)
        out = []

        def add(nm, g, *gs):
            def h(s):
                xs = [G(s) for G in gs]
                if any(x is None for x in xs):
                    return None
                r = g(s, *xs)
                return r
            out.append((nm, h))
        for i, (a, G) in enumerate(cs):
            for b, H in cs[i + 1:]:
                add("positions agree %s %s" % (a, b), lambda s, x, y: x == y, G, H)
            for nm, fm in cur["inv"]:
                add(nm + " " + a, fm, G)
        return out
    ex.inv_pool = pool

    def meas(ex, head):
        if "bound" not in cur:
            return []
        out = []
        for ob in list(head.mem):
            for off, (sz, x) in sorted(ex.get_cells(head, ob).items()):
                if isinstance(x, Abs) and x.kind in ("vit", "mit", "cit", "celt") or z3.is_bv(x) and x.size() == 64:
                    def m(s, ob=ob, off=off):
                        y = ex.get_cells(s, ob).get(off, (0, None))[1]
                        if isinstance(y, Abs) and y.kind in ("vit", "mit", "cit", "celt"):
                            y = c64(y.d[1])
                        return cur["bound"](s) - c64(y) if y is not None and y is not UNDEF and (is_conc(y) or z3.is_bv(y) and y.size() == 64) else None
                    out.append(("rest", m))
        return out
    ex.measures = meas

    # ---------------- containers to values
    for c in CONTS:
        L = "from %s" % c

        def mk(st, c=c, L=L):
            out = o.room(st, "result")
            x = o.box(st, c)
            n = o.len(st, x, c)
            pre = dict((k, v) for k, v in st.g.items() if isinstance(k, tuple) and k[0][0] == "c" and k[1] == x.obj)

            def made(s):
                """the ghost content of the value under construction"""
                t = ex.load(s, out, IntTy(32))
                h = ex.get_cells(s, out.obj).get(8, (0, None))[1]
                if not isinstance(h, Ptr) or h.obj is None:
                    return None
                return s.g.get((("map" if "map" in c else "vec"), h.obj, h.off))

            def cont(s):
                v = made(s)
                if v is not None:
                    h = ex.get_cells(s, out.obj).get(8)[1]
                    vs.sync(s, h)
                    v = made(s)
                return v
            if "map" in c:
                has, get = o.g(st, "chas", x), o.g(st, "cget", x)
                inv = [("members so far", lambda s, i: OHAS(cont(s), K) == z3.ULT(KPOS(has, K), i) if cont(s) is not None else None),
                       ("member is the element converted", lambda s, i: z3.Implies(z3.ULT(KPOS(has, K), i), OGET(cont(s), K) == TO(z3.Select(get, K))) if cont(s) is not None else None),
                       ("position inside", lambda s, i: z3.ULE(i, n))]
            else:
                inv = [("length so far", lambda s, i: SLEN(cont(s)) == i if cont(s) is not None else None),
                       ("element converted", lambda s, i: z3.Implies(z3.ULT(J, i), SNTH(cont(s), J) == TO(o.nth(s, x, c, J))) if cont(s) is not None and "array" not in c else None),
                       ("position inside", lambda s, i: z3.ULE(i, n))]
            cur.clear()
            cur.update(inv=inv, bound=lambda s: n)

            def post(s, r):
                if not o.returned(s, r, L):
                    return
                v = vs.rep(s, out)
                for k, g in pre.items():
                    ex.oblige(s, same(s.g.get(k), g) or s.g.get(k) is not None and s.g.get(k) == g, L + ": the container is unchanged")
                if "map" in c:
                    if ex.oblige(s, V.is_vobj(v), L + ": an object"):
                        b = V.o(v)
                        ex.oblige(s, OHAS(b, K) == z3.Select(has, K), L + ": a member for every key and no other")
                        ex.oblige(s, z3.Implies(z3.Select(has, K), OGET(b, K) == TO(z3.Select(get, K))), L + ": every member holds the element of its key")
                else:
                    if ex.oblige(s, V.is_varr(v), L + ": an array"):
                        q = V.s(v)
                        ex.oblige(s, SLEN(q) == n, L + ": as many elements")
                        if "array" in c:
                            for i in range(3):
                                ex.oblige(s, SNTH(q, z3.BitVecVal(i, 64)) == TO(o.nth(s, x, c, i)), L + ": every element, in order")
                        else:
                            ex.oblige(s, z3.Implies(z3.ULT(J, n), SNTH(q, J) == TO(o.nth(s, x, c, J))), L + ": every element, in order")
                o.owned(s, [out], L)
            return [out, x], post
        o.run(L, r"to<%s>\(" % TY[c], mk)

    # ---------------- values to containers
    for c in CONTS:
        for f in ("from", "got", "tryget"):
            if f == "got" and c == "carray":
                continue
            for k in KINDS:
                L = "%s to %s (%s)" % (f, c, k)

                def mk(st, c=c, k=k, f=f, L=L):
                    p, v = o.fresh(st, k, "v")
                    out = o.raw(st, c) if f == "got" else o.box(st, c, "target")
                    s0 = V.s(v) if k == "array" else None
                    b0 = V.o(v) if k == "object" else None
                    n = SLEN(s0) if k == "array" else OLEN(b0) if k == "object" else z3.BitVecVal(0 if k == "null" else 1, 64)
                    olds = [o.nth(st, out, c, i) for i in range(3)] if "array" in c and f != "got" else [EDEF] * 3
                    oldlen = lambda s: None

                    def live(s):
                        return any((q, out.obj, out.off) in s.g for q in ("clen", "cset", "chas"))
                    acc = ("elements convert", lambda s, i: z3.Implies(z3.ULT(J, i), ACC(SNTH(s0, J)))) if k == "array" else ("elements convert", lambda s, i: None)
                    inv = [acc, ("position inside", lambda s, i: z3.ULE(i, n))]
                    if c in SEQS and k == "array":
                        inv += [("elements so far", lambda s, i: o.g(s, "clen", out) == i if live(s) else None),
                                ("all elements there", lambda s, i: o.g(s, "clen", out) == n if live(s) else None)]
                        if c != "forward_list":
                            inv += [("element converted", lambda s, i: z3.Implies(z3.ULT(J, i), o.nth(s, out, c, J) == FROM(SNTH(s0, J))) if live(s) else None)]
                        else:       # filled from the back
                            inv += [("front", lambda s, i: o.g(s, "cfront", out) == -i if live(s) else None),
                                    ("last element converted", lambda s, i: z3.Implies(z3.And(z3.ULT(J, n), z3.ULE(n - i, J)), z3.Select(o.g(s, "carr", out), J - n) == FROM(SNTH(s0, J))) if live(s) else None),
                                    ("last elements accepted", lambda s, i: z3.Implies(z3.And(z3.ULT(J, n), z3.ULE(n - i, J)), ACC(SNTH(s0, J))))]
                    elif "set" in c and k == "array":
                        inv += [("elements so far", lambda s, i: z3.Select(o.g(s, "cset", out), X) == MEM(s0, i, X) if live(s) else None)]
                    elif "map" in c and k == "object":
                        inv += [("members so far", lambda s, i: z3.Select(o.g(s, "chas", out), K) == z3.ULT(OFIND(b0, K), i) if live(s) else None),
                                ("member converted", lambda s, i: z3.Implies(z3.ULT(OFIND(b0, K), i), z3.Select(o.g(s, "cget", out), K) == FROM(OGET(b0, K))) if live(s) else None),
                                ("members convert", lambda s, i: z3.Implies(z3.ULT(OFIND(b0, K), i), ACC(OGET(b0, K))))]
                    cur.clear()
                    cur.update(inv=inv, bound=lambda s: n)

                    def good(s):
                        if k in ("array", "null", "object") and not wrong(c, k) or True:
                            pass
                        if wrong(c, k):
                            # an empty array or object is an empty container
                            if not ex.oblige(s, z3.BoolVal(False) if k not in ("array", "object") else n == 0, L + ": a value of another kind is refused"):
                                return
                        if c in SEQS:
                            ex.oblige(s, o.g(s, "clen", out) == n, L + ": as many elements")
                            if k == "array":
                                ex.oblige(s, z3.Implies(z3.ULT(J, n), z3.And(ACC(SNTH(s0, J)), o.nth(s, out, c, J) == FROM(SNTH(s0, J)))), L + ": every element, in order")
                        elif "set" in c:
                            ex.oblige(s, z3.Select(o.g(s, "cset", out), X) == (MEM(s0, n, X) if k == "array" else z3.BoolVal(False)), L + ": exactly the elements")
                            if k == "array":
                                ex.oblige(s, z3.Implies(z3.ULT(J, n), ACC(SNTH(s0, J))), L + ": every element converts")
                        elif "map" in c:
                            ex.oblige(s, z3.Select(o.g(s, "chas", out), K) == (OHAS(b0, K) if k == "object" else z3.BoolVal(False)), L + ": exactly the keys of the members")
                            if k == "object":
                                ex.oblige(s, z3.Implies(OHAS(b0, K), z3.And(ACC(OGET(b0, K)), z3.Select(o.g(s, "cget", out), K) == FROM(OGET(b0, K)))), L + ": every member under its key")
                        else:
                            for i in range(3):
                                w = olds[i]
                                if k == "array":
                                    w = z3.If(z3.ULT(z3.BitVecVal(i, 64), n), FROM(SNTH(s0, z3.BitVecVal(i, 64))), w)
                                ex.oblige(s, o.nth(s, out, c, i) == w, L + ": the first elements, the rest kept")

                    def bad(s):
                        b = s.g.get("bad")
                        if b is not None:
                            ok = not wrong(c, k)
                            ex.oblige(s, ok, L + ": elements of a value of another kind are not converted")
                            ex.oblige(s, z3.Not(ACC(b)), L + ": error only if an element does not convert")
                        else:
                            ex.oblige(s, wrong(c, k), L + ": no error for a value of the right kind")

                    def post(s, r):
                        if f == "tryget":
                            if not o.returned(s, r, L):
                                return
                            ok = r[1]
                            for s1, t in (split(ex, s, toB(ok)) if not (is_conc(ok) or isinstance(ok, bool)) else [(s, bool(ok))]):
                                (good if t else bad)(s1)
                        elif r[0] == "ret":
                            good(s)
                        else:
                            t = s.g.get(("exc", r[1].obj))
                            ex.oblige(s, bool({TYPE_ERR, KEY_ERR, IT_ERR, RANGE_ERR} & set(ex.ti_bases(t))) if t else False, L + ": an error of the library")
                            bad(s)
                        o.is_(s, p, v, L + ": the value is unchanged")
                        o.owned(s, [p], L)
                    return ([out, p] if f == "got" else [p, out]), post
                o.run(L, f + r"<%s>\(" % TY[c], mk)
    cur.clear()

    # ---------------- smart pointers
    def some(st, c, has, name="x"):
        p = ex.alloc(st, name, 16, c)
        if has:
            q = ex.alloc(st, name + " object", 8, "heap" if c == "unique_ptr" else "E")
            ex.store(st, q, IntTy(64), ex.fresh(name + ".id", 64))
            ex.store(st, p, PTR, q)
        else:
            ex.store(st, p, PTR, NULL)
        return p

    def held(s, p):
        q = ex.load(s, p, PTR)
        if not isinstance(q, Ptr) or q.obj is not None and q.obj in s.freed:
            return None
        return "null" if q.obj is None else c64(ex.load(s, q, IntTy(64)))
    for c in ("unique_ptr", "shared_ptr"):
        for has in (False, True):
            L = "from %s %s" % ("full" if has else "empty", c)

            def mk(st, c=c, has=has, L=L):
                out = o.room(st, "result")
                x = some(st, c, has)
                e = held(st, x)

                def post(s, r):
                    if o.returned(s, r, L):
                        ex.oblige(s, veq(vs.rep(s, out), TO(e) if has else V.vnull), L + ": the element's value, null if there is none")
                        h = held(s, x)
                        ex.oblige(s, (h is not None and (same(h, e))), L + ": the pointer is unchanged")
                        o.owned(s, [out], L)
                return [out, x], post
            o.run(L, r"to<%s>\(" % TY[c], mk)
            for f in ("from", "got", "tryget"):
                for k in KINDS:
                    if f == "got" and has:
                        continue
                    L2 = "%s to %s %s (%s)" % (f, "full" if has else "empty", c, k)

                    def mk(st, c=c, has=has, f=f, k=k, L=L2):
                        p, v = o.fresh(st, k, "v")
                        out = o.raw(st, c) if f == "got" else some(st, c, has, "target")
                        was = ex.load(st, out, PTR) if has and c == "shared_ptr" else None
                        old = held(st, out) if was else None

                        def good(s):
                            h = held(s, out)
                            if k == "null":
                                ex.oblige(s, isinstance(h, str), L + ": null is an empty pointer")
                            else:
                                ok = ex.oblige(s, h is not None and not isinstance(h, str), L + ": a new element")
                                if ok:
                                    ex.oblige(s, z3.And(ACC(v), h == FROM(v)), L + ": the element the value denotes")

                        def post(s, r):
                            ok = r[0] == "ret"
                            if f == "tryget":
                                if not o.returned(s, r, L):
                                    return
                                if not (is_conc(r[1]) or isinstance(r[1], bool)):
                                    raise Unsupported("undetermined result")
                                ok = bool(r[1])
                            if ok:
                                good(s)
                            else:
                                ex.oblige(s, k != "null" and z3.Not(ACC(v)), L + ": error only if the element does not convert")
                            if was:
                                ex.oblige(s, same(c64(ex.load(s, was, IntTy(64))), old), L + ": an object others may share is left alone")
                            o.is_(s, p, v, L + ": the value is unchanged")
                        return ([out, p] if f == "got" else [p, out]), post
                    o.run(L2, f + r"<%s>\(" % TY[c], mk)


def run_convs(ct, *whats):
    def f(mod):
        o = Conv(mod, ct)
        for w in whats:
            w(o)
        return o.harvest(shows)
    return f
