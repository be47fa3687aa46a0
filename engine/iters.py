"""Iterators of values: every operation from every position of every kind of value, and whole iterations."""
from valops import *
from valops import Ops, element, val_eq_, R, c64, IT_ERR, RANGE_ERR, BVX
from lexer import field

SC = ("boolean", "integer", "floating", "string")
ITS = [("iterator", r"configor::detail::iterator<%s>" % BVX, ""), ("const_iterator", r"configor::detail::iterator<%s const>" % BVX, "const ")]
REVS = [("reverse_iterator", r"configor::detail::reverse_iterator<%s>" % ITS[0][1]), ("const_reverse_iterator", r"configor::detail::reverse_iterator<%s>" % ITS[1][1])]


class It(Ops):
    def __init__(self, mod, ct):
        Ops.__init__(self, mod, ct)
        tn = "configor::basic_value<configor::%svalue_tplargs>" % ("" if ct == "char" else "w")
        self.lay = {}
        for c in ("", "const "):
            m = mod.members("iterator<%s%s>" % (c, tn)) or mod.members("iterator<%s%s >" % (c, tn))
            self.lay[c] = [field(m, f) for f in ("value_", "array_it_", "object_it_", "primitive_it_")]

    def len(self, v, k):
        if k in ("array", "object"):
            return SLEN(V.s(v)) if k == "array" else OLEN(V.o(v))
        return z3.BitVecVal(0 if k == "null" else 1, 64)

    def heap(self, st, base):
        return self.ex.load(st, Ptr(base.obj, base.off + 8), PTR)

    def mk(self, st, base, k, pos, c, name="it"):
        """an iterator at this position of the value"""
        ex = self.ex
        p = ex.alloc(st, name, 32, "iterator")
        ov, oa, oo, op = self.lay[c]
        ex.store(st, Ptr(p.obj, ov), PTR, base)
        ex.store(st, Ptr(p.obj, oa), PTR, Abs("vit", self.heap(st, base), pos) if k == "array" else NULL)
        ex.store(st, Ptr(p.obj, oo), PTR, Abs("mit", self.heap(st, base), pos) if k == "object" else NULL)
        ex.store(st, Ptr(p.obj, op), IntTy(64), 0 if k in ("array", "object") else pos)
        return p

    def pos(self, st, p, base, k, c, L):
        """the position of the iterator at p, an iterator of the value at base"""
        ex = self.ex
        ov, oa, oo, op = self.lay[c]
        v = ex.load(st, Ptr(p.obj, p.off + ov), PTR)
        ex.oblige(st, isinstance(v, Ptr) and same(v, base), L + ": an iterator of this value")
        if k in ("array", "object"):
            x = ex.load(st, Ptr(p.obj, p.off + (oa if k == "array" else oo)), PTR)
            ok = isinstance(x, Abs) and x.kind == ("vit" if k == "array" else "mit") and same(x.d[0], self.heap(st, base))
            ex.oblige(st, ok, L + ": a position in this value")
            return c64(x.d[1]) if ok else z3.BitVecVal(-1, 64)
        x = ex.load(st, Ptr(p.obj, p.off + op), IntTy(64))
        return c64(x)

    def at(self, s, p, base, k, c, want, L):
        w = c64(want)
        got = self.pos(s, p, base, k, c, L)
        return self.ex.oblige(s, got == w, L + ": position")

    def any_pos(self, st, v, k, name="pos", upto=0):
        """an arbitrary position 0..length"""
        if k == "null":
            return z3.BitVecVal(0, 64)
        i = self.ex.fresh(name, 64)
        st.assume(z3.ULE(i, self.len(v, k)))
        return i

    def names(self, s, p, base, v, k, i, L):
        """p is the element at position i"""
        ex = self.ex
        if k == "array" and isinstance(p, Abs) and p.kind == "vit":
            ex.oblige(s, same(p.d[0], self.heap(s, base)), L + ": a reference into this value")
            ex.oblige(s, c64(p.d[1]) == i, L + ": a reference to the element addressed")
        elif k == "array":
            element(self, s, p, base, "vec", i, SNTH(V.s(v), i), L)
        elif k == "object":
            o = V.o(v)
            ex.th and None
            element(self, s, p, base, "map", OKEY(o, i), OVAL(o, i), L)
        else:
            ex.oblige(s, isinstance(p, Ptr) and same(p, base), L + ": the value itself")


def ops_c15(o):
    ex, vs = o.ex, o.vs
    ONE, ZERO = z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)
    CASES = [(k, nm, rx, c) for k in KINDS for nm, rx, c in ITS]

    def go(L, rx, build):
        """build(st) -> (args, post)"""
        o.run(L, rx, build)

    # ---- where iterators start
    for k in KINDS:
        for f, c, rev in (("begin", "", 0), ("end", "", 0), ("begin_c", "const ", 0), ("end_c", "const ", 0), ("cbegin", "const ", 0), ("cend", "const ", 0),
                          ("rbegin", "", 1), ("rend", "", 1), ("rbegin_c", "const ", 1), ("rend_c", "const ", 1), ("crbegin", "const ", 1), ("crend", "const ", 1)):
            L = "%s(%s)" % (f, k)

            def mk(st, k=k, L=L, f=f, c=c, rev=rev):
                p, v = o.fresh(st, k, "v")
                out = ex.alloc(st, "result", 32, "iterator")
                last = ("end" in f) != bool(rev)

                def post(s, r):
                    if o.returned(s, r, L):
                        o.at(s, out, p, k, c, o.len(v, k) if last else 0, L)
                        o.is_(s, p, v, L + ": the value is unchanged")
                return [out, p], post
            go(L, f + r"\(", mk)
        for f, c in (("find", ""), ("find_c", "const ")):
            L = "%s(%s)" % (f, k)

            def mk(st, k=k, L=L, c=c):
                p, v = o.fresh(st, k, "v")
                q, t = o.text(st)
                out = ex.alloc(st, "result", 32, "iterator")

                def post(s, r):
                    if o.returned(s, r, L):
                        o.at(s, out, p, k, c, OFIND(V.o(v), t) if k == "object" else o.len(v, k), L)
                        o.is_(s, p, v, L + ": the value is unchanged")
                return [out, p, q], post
            go(L, f + r"\(", mk)

    for k, nm, rx, c in CASES:
        ind = k in ("array", "object")

        def start(st, k=k, c=c):
            p, v = o.fresh(st, k, "v")
            i = o.any_pos(st, v, k)
            return p, v, i, o.mk(st, p, k, i, c)

        # ---- steps
        for f, d, post_fix in (("inc", 1, 0), ("dec", -1, 0), ("pinc", 1, 1), ("pdec", -1, 1)):
            L = "%s %s(%s)" % (nm, f, k)

            def mk(st, k=k, c=c, L=L, d=d, pf=post_fix):
                p, v, i, it = start(st)
                if k != "null":
                    st.assume(z3.ULT(i, o.len(v, k)) if d > 0 else i != 0)
                want = i if k == "null" else i + d
                out = ex.alloc(st, "result", 32, "iterator")

                def post(s, r):
                    if not o.returned(s, r, L):
                        return
                    o.at(s, it, p, k, c, want, L)
                    if pf:
                        o.at(s, out, p, k, c, i, L + " result")
                    o.is_(s, p, v, L + ": the value is unchanged")
                return ([out, it] if pf else [it]), post
            go(L, f + "<" + rx + r">\(", mk)
        # ---- arithmetic
        for f, sg, new in (("adv", 1, 0), ("ret", -1, 0), ("plus", 1, 1), ("minus", -1, 1)):
            L = "%s %s(%s)" % (nm, f, k)

            def mk(st, k=k, c=c, L=L, sg=sg, new=new):
                p, v, i, it = start(st)
                n = ex.fresh("n", 64)
                j = i + n if sg > 0 else i - n
                if k not in ("null", "object"):
                    st.assume(z3.And(z3.ULE(j, o.len(v, k)), n < (1 << 59), n > -(1 << 59)))
                else:
                    st.assume(n != z3.BitVecVal(1 << 63, 64))
                out = ex.alloc(st, "result", 32, "iterator")

                def post(s, r):
                    if k == "object":
                        o.thrown(s, r, IT_ERR, L)
                        o.at(s, it, p, k, c, i, L)
                    elif o.returned(s, r, L):
                        o.at(s, out if new else it, p, k, c, i if k == "null" else j, L)
                        if new:
                            o.at(s, it, p, k, c, i, L + " operand")
                    o.is_(s, p, v, L + ": the value is unchanged")
                return ([out, it, n] if new else [it, n]), post
            go(L, f + "<" + rx + r">\(", mk)
        # ---- comparison
        for f, rel in (("eq", lambda a, b: a == b), ("ne", lambda a, b: a != b), ("lt", lambda a, b: z3.ULT(a, b)), ("le", lambda a, b: z3.ULE(a, b)),
                       ("gt", lambda a, b: z3.UGT(a, b)), ("ge", lambda a, b: z3.UGE(a, b)), ("dist", lambda a, b: a - b)):
            for other in ("same", "other", "empty"):
                L = "%s %s(%s, %s value)" % (nm, f, k, other)

                def mk(st, k=k, c=c, L=L, f=f, rel=rel, other=other):
                    p, v, i, it = start(st)
                    j = o.any_pos(st, v, k, "pos2")
                    q = p
                    if other == "other":
                        q, w = o.fresh(st, k, "w")
                    jt = o.mk(st, q, k, j, c, "jt")
                    if other == "empty":
                        ex.store(st, Ptr(jt.obj, o.lay[c][0]), PTR, NULL)
                    err = f not in ("eq", "ne") and (other != "same" or k == "object" or f == "dist" and k != "array")

                    def post(s, r):
                        if err:
                            o.thrown(s, r, IT_ERR, L)
                        elif o.returned(s, r, L):
                            want = rel(i, j) if other == "same" else z3.BoolVal(f == "ne")
                            ex.oblige(s, val_eq_(ex, r[1], want), L + ": result agrees with the positions")
                        o.is_(s, p, v, L + ": the value is unchanged")
                        o.at(s, it, p, k, c, i, L + " operand")
                    return [it, jt], post
                go(L, f + "<" + rx + r">\(", mk)
        # ---- dereference
        for f in ("deref", "arrow", "value", "key"):
            L = "%s %s(%s)" % (nm, f, k)

            def mk(st, k=k, c=c, L=L, f=f):
                p, v, i, it = start(st)
                n = o.len(v, k)

                def post(s, r):
                    if r[0] == "ret":
                        ex.oblige(s, z3.ULT(i, n), L + ": nothing lies behind the end")
                        if f == "key":
                            if ex.oblige(s, k == "object", L + ": only members have a key"):
                                ex.oblige(s, str_get(ex, s, r[1]) == OKEY(V.o(v), i), L + ": the key of the member")
                        else:
                            o.names(s, r[1], p, v, k, i, L)
                    elif f == "key" and k != "object":
                        t = s.g.get(("exc", r[1].obj))
                        ex.oblige(s, bool({IT_ERR, RANGE_ERR} & set(ex.ti_bases(t))) if t else False, L + ": an error is raised")
                    else:
                        ex.oblige(s, i == n, L + ": error only at the end")
                        o.thrown(s, r, RANGE_ERR, L)
                    o.is_(s, p, v, L + ": the value is unchanged")
                return [it], post
            go(L, f + "<" + rx + r">\(", mk)
        # ---- copies
        for f, rx2 in ((("copy", r"copy<%s>\(" % rx),) + tuple(("assign" + x, r"assign<%s>\(" % rx) for x in ("", " here", " itself"))
                       + ((("conv", r"conv\("), ("cassign", r"cassign\("), ("cassign here", r"cassign\(")) if not c else ())):
            L = "%s %s(%s)" % (nm, f, k)
            cc = "const " if f.startswith("c") and f != "copy" else c

            def mk(st, k=k, c=c, cc=cc, L=L, f=f):
                p, v, i, it = start(st)
                if f.endswith("itself"):
                    out = it
                elif f.endswith("here"):    # from another position of the same value
                    out = o.mk(st, p, k, o.any_pos(st, v, k, "old"), cc, "target")
                elif "assign" in f:
                    q, w = o.fresh(st, "array", "w")
                    out = o.mk(st, q, "array", ZERO, cc, "target")
                else:
                    out = ex.alloc(st, "result", 32, "iterator")

                def post(s, r):
                    if o.returned(s, r, L):
                        o.at(s, out, p, k, cc, i, L)
                        o.at(s, it, p, k, c, i, L + " operand")
                return [out, it], post
            go(L, rx2, mk)
        # ---- erasure
        L = "%s erase(%s)" % (nm, k)

        def mk(st, k=k, c=c, L=L):
            p, v, i, it = start(st)
            if ind:
                st.assume(z3.ULT(i, o.len(v, k)))
            out = ex.alloc(st, "result", 32, "iterator")

            def post(s, r):
                if ind:
                    if o.returned(s, r, L):
                        o.is_(s, p, V.varr(SDEL(V.s(v), i)) if k == "array" else V.vobj(ODELI(V.o(v), i)), L + ": exactly the element addressed is gone")
                        o.at(s, out, p, k, c, i, L + " result")
                else:
                    o.thrown(s, r, IT_ERR, L)
                    o.is_(s, p, v, L + ": the value is unchanged")
                o.owned(s, [p], L)
            return [out, p, it], post
        go(L, ("erase_c" if c else "erase") + r"\(", mk)
        L = "%s erase range(%s)" % (nm, k)

        def mk(st, k=k, c=c, L=L):
            p, v, i, it = start(st)
            j = o.any_pos(st, v, k, "pos2")
            jt = o.mk(st, p, k, j, c, "jt")
            st.assume(z3.ULE(i, j))
            out = ex.alloc(st, "result", 32, "iterator")

            def post(s, r):
                if ind:
                    if o.returned(s, r, L):
                        o.is_(s, p, V.varr(SDELR(V.s(v), i, j)) if k == "array" else V.vobj(ODELR(V.o(v), i, j)), L + ": exactly the elements addressed are gone")
                        o.at(s, out, p, k, c, i, L + " result")
                else:
                    o.thrown(s, r, IT_ERR, L)
                    o.is_(s, p, v, L + ": the value is unchanged")
                o.owned(s, [p], L)
            return [out, p, it, jt], post
        go(L, ("erase_rc" if c else "erase_r") + r"\(", mk)

    # ---- reverse iterators: at position i they name element i-1
    for k in KINDS:
        for (nm, rx), c in zip(REVS, ("", "const ")):
            def start(st, k=k, c=c):
                p, v = o.fresh(st, k, "v")
                i = o.any_pos(st, v, k)
                return p, v, i, o.mk(st, p, k, i, c)
            for f, d in (("inc", -1), ("dec", 1)):
                L = "%s %s(%s)" % (nm, f, k)

                def mk(st, k=k, c=c, L=L, d=d):
                    p, v, i, it = start(st)
                    if k != "null":
                        st.assume(z3.ULT(i, o.len(v, k)) if d > 0 else i != 0)

                    def post(s, r):
                        if o.returned(s, r, L):
                            o.at(s, it, p, k, c, i if k == "null" else i + d, L)
                    return [it], post
                go(L, f + "<" + rx + r">\(", mk)
            for f in ("eq", "ne"):
                L = "%s %s(%s)" % (nm, f, k)

                def mk(st, k=k, c=c, L=L, f=f):
                    p, v, i, it = start(st)
                    j = o.any_pos(st, v, k, "pos2")
                    jt = o.mk(st, p, k, j, c, "jt")

                    def post(s, r):
                        if o.returned(s, r, L):
                            ex.oblige(s, val_eq_(ex, r[1], i == j if f == "eq" else i != j), L + ": result agrees with the positions")
                    return [it, jt], post
                go(L, f + "<" + rx + r">\(", mk)
            for f in ("deref", "value", "key"):
                L = "%s %s(%s)" % (nm, f, k)

                def mk(st, k=k, c=c, L=L, f=f):
                    p, v, i, it = start(st)
                    if k != "null":
                        st.assume(i != 0)

                    def post(s, r):
                        if r[0] == "ret":
                            ex.oblige(s, k != "null", L + ": null has no elements")
                            if f == "key":
                                if ex.oblige(s, k == "object", L + ": only members have a key"):
                                    ex.oblige(s, str_get(ex, s, r[1]) == OKEY(V.o(v), i - 1), L + ": the key of the member")
                            else:
                                o.names(s, r[1], p, v, k, i - 1, L)
                        elif f == "key" and k != "object" or k == "null":
                            t = s.g.get(("exc", r[1].obj))
                            ex.oblige(s, bool({IT_ERR, RANGE_ERR} & set(ex.ti_bases(t))) if t else False, L + ": an error is raised")
                        else:
                            ex.fail(s, L + ": returns normally")
                        o.at(s, it, p, k, c, i, L + " operand")
                    return [it], post
                go(L, f + "<" + rx + r">\(", mk)


def ops_c15_whole(o):
    """whole iterations: the visits are exactly the elements, in order"""
    ex, vs = o.ex, o.vs
    cur = {}

    def visit(st, p, key=None):
        k, v, base, back, L = cur["k"], cur["v"], cur["p"], cur["back"], cur["L"]
        n = st.g["visits"]
        ln = o.len(v, k)
        ex.oblige(st, z3.ULT(n, ln), L + ": no more visits than elements")
        i = simp(ln - 1 - n if back else n)
        i = c64(i)
        o.names(st, p, base, v, k, i, L + ": visit")
        if key is not None:
            ex.oblige(st, str_get(ex, st, key) == OKEY(V.o(v), i), L + ": visit: key")
        st.g["visits"] = z3.simplify(n + 1)
        return [(st, ("ret", None))]
    ex.add_contract(r"^seen\(", lambda ex, st, name, args, I: visit(st, args[0]), "visitor", front=True)
    ex.add_contract(r"^named\(", lambda ex, st, name, args, I: visit(st, args[1], args[0]), "visitor with key", front=True)
    ex.ghost_havoc["visits"] = lambda ex, v, k: ex.fresh("visits", 64)

    def pool(ex, st, f, header, M):
        if "v" not in cur:
            return []
        ln = o.len(cur["v"], cur["k"])
        out = [("no more visits than elements", lambda s: z3.ULE(s.g["visits"], ln))]
        for m in M:
            if m[0] != "cell":
                continue
            ob, off = m[1], m[2]

            def G(s, ob=ob, off=off):
                x = ex.get_cells(s, ob).get(off, (0, None))[1]
                if isinstance(x, Abs) and x.kind in ("vit", "mit"):
                    return c64(x.d[1])
                if x is not None and x is not UNDEF and (is_conc(x) or z3.is_bv(x)) and not isinstance(x, bool):
                    return bv(x, 64) if is_conc(x) or x.size() == 64 else None
                return None
            if G(st) is not None:
                for nm, g in (("position counts the visits", lambda s, G=G: G(s) == s.g["visits"]), ("position counts the visits left", lambda s, G=G: G(s) == ln - s.g["visits"])):
                    def h(s, g=g, G=G):
                        return g(s) if G(s) is not None else z3.BoolVal(True)
                    out.append((nm, h))
        return out
    ex.inv_pool = pool
    ex.measures = lambda ex, head: [("elements left", lambda s: o.len(cur["v"], cur["k"]) - s.g["visits"])] if "visits" in head.g else []
    for f, back in (("forward", 0), ("forward_c", 0), ("backward", 1), ("backward_c", 1), ("down", 1), ("names", 0), ("names_r", 1)):
        for k in KINDS:
            L = "%s(%s)" % (f, k)

            def mk(st, k=k, L=L, f=f, back=back):
                p, v = o.fresh(st, k, "v")
                st.g["visits"] = z3.BitVecVal(0, 64)
                cur.update(k=k, v=v, p=p, back=back, L=L)

                def post(s, r):
                    if f.startswith("names") and k not in ("object", "array", "null"):
                        o.thrown(s, r, IT_ERR, L)
                    elif f.startswith("names") and k == "array":
                        if r[0] == "ret":
                            ex.oblige(s, SLEN(V.s(v)) == 0, L + ": array elements have no key")
                        else:
                            o.thrown(s, r, IT_ERR, L)
                    elif o.returned(s, r, L):
                        ex.oblige(s, s.g["visits"] == o.len(v, k), L + ": every element is visited")
                    o.is_(s, p, v, L + ": the value is unchanged")
                    o.owned(s, [p], L)
                return [p], post
            o.run(L, f + r"\(", mk)
    cur.clear()


def run_iters(ct, *whats):
    def f(mod):
        o = It(mod, ct)
        for w in whats:
            w(o)
        return o.harvest(None)
    return f
