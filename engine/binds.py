"""Bound user types: structures whose fields are of an opaque type E (convs.py), bound by the macro to member names.  The functions
the macro expands to are executed; there are no loops, so every path is followed for arbitrary field contents, arbitrary
objects and arbitrary values of the other kinds."""
from convs import *
from convs import R
from stdlib import lit_text
from values import lohas, loget, head, OINS, OSET

# type -> (fields, listed: field -> (name, required))
MIX = ("abcde", dict(a=("a", True), b=("x b", True), c=("c", False), d=("y", False)))
REQ = ("ab", dict(a=("a", True)))
OPT = ("ab", dict(a=("a", False)))
MAXF = [x + y for x in "pqrst" for y in "0123456789"]
MAX = (MAXF, dict((f, (f, True)) for f in MAXF))
TYPES = dict(char=dict(Mix=MIX, Req=REQ, Opt=OPT, Max=MAX), wchar_t=dict(WMix=MIX, WReq=REQ, WOpt=OPT))


def has_any(b, k):
    """whether b holds the arbitrary key k, unfolded over what was inserted"""
    ks = []
    while head(b, OINS) or head(b, OSET):
        ks.append(b.arg(1))
        b = b.arg(0)
    return z3.Or([k == j for j in ks] + ([] if b.eq(OEMPTY) else [OHAS(b, k)]))


def ops_c18(*only):
    return lambda o: ops_c18_(o, only)


def ops_c18_(o, only):
    ex, vs, K = o.ex, o.vs, o.K
    ct = o.ct

    def txt(n):
        return lit_text([ord(ch) for ch in n])

    def fn(rx, label):
        def deco(h):
            ex.add_contract(rx, h, label, trusted=True, front=True)
            return h
        return deco

    @fn(r"^operator[!=]=\(E const&, E const&\)$", "comparison of E")
    def cmp(ex, st, name, args, I):
        r = o.eid(st, args[0]) == o.eid(st, args[1])
        return R(st, simp(r if "operator==" in ex.mod.dem(name) else z3.Not(r)))

    def box(st, T, name):
        fs = T[0]
        p = ex.alloc(st, name, 8 * len(fs), "object")
        for i, f in enumerate(fs):
            ex.store(st, Ptr(p.obj, 8 * i), IntTy(64), ex.fresh("%s.%s" % (name, f), 64))
        return p, fields(st, p, T)

    def fields(st, p, T):
        r = {}
        for i, f in enumerate(T[0]):
            x = ex.load(st, Ptr(p.obj, p.off + 8 * i), IntTy(64))
            if x is UNDEF or isinstance(x, (Ptr, Abs)):
                ex.fail(st, "field %s is not constructed" % f)
                x = ex.fresh("undef", 64)
            r[f] = c64(x)
        return r

    def names(st, T):
        ns = [txt(n) for n, _ in T[1].values()]
        if len(ns) > 1:
            st.assume(z3.Distinct(*ns))
        return ns

    def library(s, r, L):
        t = s.g.get(("exc", r[1].obj))
        ex.oblige(s, bool({TYPE_ERR, KEY_ERR, IT_ERR, RANGE_ERR} & set(ex.ti_bases(t))) if t else False, L + ": an error of the library")

    def same_fields(s, p, T, x, L):
        y = fields(s, p, T)
        ex.oblige(s, z3.And([y[f] == x[f] for f in T[0]]), L)

    def obj(v):
        return z3.simplify(V.o(v)) if not z3.is_app_of(v, z3.Z3_OP_DT_CONSTRUCTOR) else v.arg(0) if v.num_args() and v.sort() == V and v.arg(0).sort() == OBJ else V.o(v)

    def is_made(s, v, T, x, L):
        """v is what the object with fields x converts to"""
        opt = [f for f, (n, req) in T[1].items() if not req]
        if len(opt) == len(T[1]):       # every listed field may be left out
            left = z3.And([x[f] == EDEF for f in opt])
            if not ex.oblige(s, z3.Or(V.is_vobj(v), z3.And(V.is_vnull(v), left)), L + ": an object, or null if every field is left out"):
                return
            q = z3.simplify(V.is_vobj(v))
            has = lambda k: z3.And(q, lohas(obj(v), k))
        else:
            if not ex.oblige(s, V.is_vobj(v), L + ": an object"):
                return
            q = z3.BoolVal(True)
            has = lambda k: lohas(obj(v), k)
        b = obj(v)
        for f, (n, req) in T[1].items():
            k = txt(n)
            if req:
                ex.oblige(s, has(k), L + ": field %s is there" % f)
                ex.oblige(s, loget(b, k) == TO(x[f]), L + ": field %s is converted under its name" % f)
            else:
                ex.oblige(s, z3.Or(has(k), x[f] == EDEF), L + ": optional field %s is left out only if it holds its default" % f)
                ex.oblige(s, z3.Implies(has(k), loget(b, k) == TO(x[f])), L + ": field %s is converted under its name" % f)
        ex.oblige(s, z3.Implies(z3.And(q, has_any(b, K)), z3.Or([K == txt(n) for n, _ in T[1].values()])), L + ": no other member")

    for tn, T in TYPES[ct].items():
        if tn not in only:
            continue
        listed = T[1]
        big = len(listed) > 8

        # ---------------- objects to values
        L = "from %s" % tn

        def mk(st, T=T, L=L):
            out = o.room(st, "result")
            p, x = box(st, T, "x")
            names(st, T)

            def post(s, r):
                if o.returned(s, r, L):
                    is_made(s, vs.rep(s, out), T, x, L)
                    same_fields(s, p, T, x, L + ": the object is unchanged")
                    o.owned(s, [out], L)
            return [out, p], post
        o.run(L, r"to<%s>\(" % tn, mk)
        for k in KINDS:
            if big and k not in ("null", "object"):
                continue
            L = "assign %s to a value (%s)" % (tn, k)

            def mk(st, T=T, L=L, k=k):
                q, v = o.fresh(st, k, "v")
                p, x = box(st, T, "x")
                names(st, T)

                def post(s, r):
                    if o.returned(s, r, L):
                        is_made(s, vs.rep(s, q), T, x, L)
                        same_fields(s, p, T, x, L + ": the object is unchanged")
                        o.owned(s, [q], L)
                return [q, p], post
            o.run(L, r"into<%s>\(" % tn, mk)

        # ---------------- values to objects
        for f in ("from",) if big else ("from", "got", "tryget"):
            for k in KINDS:
                L = "%s to %s (%s)" % (f, tn, k)

                def mk(st, T=T, L=L, f=f, k=k):
                    q, v = o.fresh(st, k, "v")
                    names(st, T)
                    if f == "got":
                        p, x = ex.alloc(st, "object", 8 * len(T[0]), "object"), dict((g, EDEF) for g in T[0])
                    else:
                        p, x = box(st, T, "target")
                    has = (lambda n: OHAS(V.o(v), txt(n))) if k == "object" else lambda n: z3.BoolVal(False)
                    get = lambda n: OGET(V.o(v), txt(n))
                    if big and k == "object":       # 2^50 paths otherwise; the smaller types have members that do not convert
                        for n, _ in T[1].values():
                            st.assume(ACC(get(n)))

                    def good(s):
                        y = fields(s, p, T)
                        for g in T[0]:
                            if g not in T[1]:
                                ex.oblige(s, y[g] == x[g], L + ": field %s, which is not listed, is not touched" % g)
                                continue
                            n, req = T[1][g]
                            if req:
                                ex.oblige(s, has(n), L + ": a missing required field %s is an error" % g)
                            if k == "object":
                                ex.oblige(s, z3.Implies(z3.And(has(n), ACC(get(n))), y[g] == FROM(get(n))), L + ": field %s is made from its member" % g)
                            if not req:
                                ex.oblige(s, z3.Or(has(n), y[g] == x[g]), L + ": a missing optional field %s is unchanged" % g)

                    def bad(s):
                        ex.oblige(s, z3.Or([z3.Not(has(n)) if req else z3.BoolVal(False) for n, req in T[1].values()] +
                                           ([z3.And(has(n), z3.Not(ACC(get(n)))) for n, _ in T[1].values()] if k == "object" else [])),
                                  L + ": error only if a required field is missing or a field does not convert")
                        if f != "got":
                            y = fields(s, p, T)
                            for g in T[0]:
                                if g not in T[1]:
                                    ex.oblige(s, y[g] == x[g], L + ": field %s, which is not listed, is not touched" % g)

                    def post(s, r):
                        if f == "tryget":
                            if not o.returned(s, r, L):
                                return
                            ok = r[1]
                            for s1, t in (split(ex, s, toB(ok)) if not (is_conc(ok) or isinstance(ok, bool)) else [(s, bool(ok))]):
                                (good if t else bad)(s1)
                        elif r[0] == "ret":
                            good(s)
                        else:
                            library(s, r, L)
                            bad(s)
                        o.is_(s, q, v, L + ": the value is unchanged")
                        o.owned(s, [q], L)
                    return ([p, q] if f == "got" else [q, p]), post
                o.run(L, r"%s<%s>\(" % (f, tn), mk)

        # ---------------- and back
        for f in ("back",) if big else ("back", "backinto"):
            L = "%s %s" % (f, tn)

            def mk(st, T=T, L=L, f=f):
                p, x = box(st, T, "x")
                names(st, T)
                for g in T[1]:
                    st.assume(z3.And(ACC(TO(x[g])), FROM(TO(x[g])) == x[g]))
                if f == "back":
                    q, y0 = ex.alloc(st, "result", 8 * len(T[0]), "object"), dict((g, EDEF) for g in T[0])
                else:
                    q, y0 = box(st, T, "target")

                def post(s, r):
                    if not o.returned(s, r, L):
                        return
                    if f == "backinto":
                        ex.oblige(s, toB(r[1]) if not isinstance(r[1], int) else bool(r[1]), L + ": succeeds")
                    y = fields(s, q, T)
                    for g in T[0]:
                        if g not in T[1]:
                            ex.oblige(s, y[g] == y0[g], L + ": field %s, which is not listed, is not touched" % g)
                        elif T[1][g][1] or f == "back":
                            ex.oblige(s, y[g] == x[g], L + ": field %s is restored" % g)
                        else:
                            ex.oblige(s, z3.Or(y[g] == x[g], z3.And(x[g] == EDEF, y[g] == y0[g])), L + ": field %s is restored" % g)
                    same_fields(s, p, T, x, L + ": the object is unchanged")
                    o.owned(s, [], L)
                return ([q, p] if f == "back" else [p, q]), post
            o.run(L, r"%s<%s>\(" % (f, tn), mk)


def ops_c18_own(o):
    """types bound by functions of their own, and binders that return the object"""
    ex, vs = o.ex, o.vs

    def fn(rx, label):
        def deco(h):
            ex.add_contract(rx, h, label, trusted=True, front=True)
            return h
        return deco

    @fn(r"^(to_value\(.*, Own const&\)|configor::value_binder<Ret>::to_value\()", "a binder's own to_value")
    def own_to(ex, st, name, args, I):
        x = o.eid(st, args[1])
        vs.rep(st, args[0])
        vs.consume(st, args[0])
        vs.put(st, args[0], TO(x))
        return R(st)

    @fn(r"^(from_value\(.*, Own&\)|configor::value_binder<Ret>::from_value\()", "a binder's own from_value")
    def own_from(ex, st, name, args, I):
        q, p = (args[1], args[0]) if "Ret" in ex.mod.dem(name) else args
        v = vs.rep(st, q)
        outs = []
        for s, ok in split(ex, st, ACC(v)):
            if ok:
                o.seteid(s, p, FROM(v))
                outs.append((s, ("ret", None)))
            else:
                outs.append((s, ("throw", ex.make_exc(s, TYPE_ERR))))
        return outs
    for tn in ("Own", "Ret"):
        def mk(st):
            out = o.room(st, "result")
            p = ex.alloc(st, "x", 8, "object")
            x = ex.fresh("x.id", 64)
            ex.store(st, p, IntTy(64), x)

            def post(s, r, L="from " + tn):
                if o.returned(s, r, L):
                    ex.oblige(s, veq(vs.rep(s, out), TO(x)), L + ": the value its binder makes")
                    o.owned(s, [out], L)
            return [out, p], post
        o.run("from " + tn, r"to<%s>\(" % tn, mk)
        for f in ("from", "got", "tryget"):
            if (tn, f) == ("Ret", "from"):
                continue
            for k in KINDS:
                L = "%s to %s (%s)" % (f, tn, k)

                def mk(st, f=f, L=L, k=k):
                    q, v = o.fresh(st, k, "v")
                    p = ex.alloc(st, "target", 8, "object")
                    x = ex.fresh("x.id", 64)
                    if f != "got":
                        ex.store(st, p, IntTy(64), x)

                    def post(s, r):
                        if f == "tryget":
                            if not o.returned(s, r, L):
                                return
                            if not (is_conc(r[1]) or isinstance(r[1], bool)):
                                raise Unsupported("undetermined result")
                        ok = bool(r[1]) if f == "tryget" else r[0] == "ret"
                        if ok:
                            ex.oblige(s, ACC(v), L + ": an error of its binder is reported")
                            ex.oblige(s, c64(ex.load(s, p, IntTy(64))) == FROM(v), L + ": the object its binder makes")
                        else:
                            ex.oblige(s, z3.Not(ACC(v)), L + ": error only if its binder raises one")
                            if f != "got":
                                ex.oblige(s, c64(ex.load(s, p, IntTy(64))) == x, L + ": the object is unchanged")
                        o.is_(s, q, v, L + ": the value is unchanged")
                        o.owned(s, [q], L)
                    return ([p, q] if f == "got" else [q, p]), post
                o.run(L, r"%s<%s>\(" % (f, tn), mk)
