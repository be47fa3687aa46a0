"""Contracts: one object serves as the specification the function body is verified against and as the summary that
replaces a call to it."""
import time
import z3
from llir import Unsupported
from sym import (Ptr, NULL, Fn, Abs, UNDEF, State, simp, same, toB, bv, is_conc, Obl, NeedInv, Budget)


class _Any:
    def __repr__(self):
        return "ANY"


ANY = _Any()


class Case:
    """guard: Bool; out: ('ret', value|ANY|None) or ('throw', typeinfo); upd: location -> value (ANY = unconstrained);
    locations are ('g', ghostkey) or ('c', obj, off, size); post: [(name, fn(state, retval) -> Bool)] extra facts that
    hold afterwards (checked on the body, assumed at calls)."""

    def __init__(self, guard, out, upd=None, post=None, name=""):
        self.guard, self.out, self.upd, self.post, self.name = guard, out, upd or {}, post or [], name


class Contract:
    name = "?"
    rx = None
    trusted = False
    ret_fresh = None      # fn(ex, st, ctx) for ANY return values

    def setups(self, ex):
        raise NotImplementedError

    def bind(self, ex, st, args):
        return None

    def requires(self, ex, st, ctx):
        return []

    def cases(self, ex, st, ctx):
        raise NotImplementedError

    def modifies(self, ctx):
        return []

    def measure(self, ex, st, ctx):
        return None

    # -------------------------------------------------- as a summary
    def handler(self, ex, st, name, args, I):
        ctx = self.bind(ex, st, args)
        if ctx is None:
            return None
        for nm, f in self.requires(ex, st, ctx):
            ex.oblige(st, f, "precondition of %s: %s" % (self.name, nm))
        m = self.measure(ex, st, ctx)
        if m is not None and getattr(ex, "entry_measure", None) is not None and ex.entry_name == self.group():
            ex.oblige(st, z3.And(m >= 0, m < ex.entry_measure) if z3.is_int(m) else z3.ULT(m, ex.entry_measure),
                      "recursive call decreases the measure (%s)" % self.name)
        outs = []
        cs = self.cases(ex, st, ctx)
        for i, c in enumerate(cs):
            g = simp(c.guard)
            if g is False or not ex.feasible(st, g):
                continue
            s = st.copy()
            if g is not True:
                s.assume(g)
            self.apply_case(ex, s, ctx, c)
            if c.out[0] == "throw":
                p = ex.make_exc(s, c.out[1])
                rv = ("throw", p)
            else:
                v = c.out[1]
                if v is ANY:
                    v = self.fresh_ret(ex, s, ctx, I)
                rv = ("ret", v)
            for nm, f in c.post:
                fm = f(s, rv[1])
                if fm is not None:
                    s.assume(toB(fm))
            outs.append((s, rv))
        return outs

    def group(self):
        return self.name

    def fresh_ret(self, ex, s, ctx, I):
        if self.ret_fresh:
            return self.ret_fresh(ex, s, ctx)
        if I is None or I.ty is None or I.ty.k == "void":
            return None
        return ex.fresh_of(I.ty, self.name + ".ret")

    def apply_case(self, ex, s, ctx, c):
        locs = dict(c.upd)
        for l in self.modifies(ctx):
            locs.setdefault(l, ANY)
        for l, v in locs.items():
            set_loc(ex, s, l, v)

    # -------------------------------------------------- as a specification
    def verify(self, ex, fname):
        """execute the body of fname from every setup and generate the obligations"""
        f = ex.mod.funcs[fname]
        nset = 0
        for label, st, args in self.setups(ex):
            nset += 1
            while True:
                mark = len(ex.obls)
                try:
                    self.verify1(ex, f, label, st.copy(), args)
                    break
                except NeedInv as e:
                    del ex.obls[mark:]
                    key = (e.fn, e.header)
                    if key in ex.invloops:
                        raise Unsupported("loop handling failed: %s" % e)
                    ex.invloops.add(key)
        return nset

    def verify1(self, ex, f, label, st, args):
        ctx = self.bind(ex, st, args)
        if ctx is None:
            raise Unsupported("contract %s does not bind" % self.name)
        for nm, fm in self.requires(ex, st, ctx):
            st.assume(toB(fm))
        if not ex.feasible(st):
            ex.obls.append(Obl(name="precondition of %s satisfiable (%s)" % (self.name, label), ok=False,
                               status="failed", fn=f.name, t=0, backend="z3", line=f.line, trace=()))
            return
        ex.covers[(self.name, label)] = ex.covers.get((self.name, label), 0)
        cases = self.cases(ex, st, ctx)
        st0 = st.copy()
        m = self.measure(ex, st0, ctx)
        ex.entry_measure, ex.entry_name = m, self.group()
        # keep this contract from being applied to the body under verification itself is not needed: the body is
        # executed directly, recursive calls go through the contract
        outs = self.run_body(ex, f, st, args)
        ex.entry_measure = None
        if not outs and not any(not o.ok for o in ex.obls):
            ex.obls.append(Obl(name="%s (%s) reaches an exit" % (self.name, label), ok=False, status="failed",
                               fn=f.name, t=0, backend="z3", line=f.line, trace=()))
        ex.stack.append(f.name)
        try:
            hit = set()
            for s, o in outs:
                if not ex.feasible(s):
                    continue
                ex.covers[(self.name, label)] += 1
                self.check_out(ex, st0, s, o, ctx, cases, label, hit)
        finally:
            ex.stack.pop()

    def run_body(self, ex, f, st, args):
        return ex.exec_func(st, f, args)

    def check_out(self, ex, st0, s, o, ctx, cases, label, hit):
        L = "%s%s" % (self.name, "[%s]" % label if label else "")
        gs = [toB(c.guard) for c in cases]
        if len(gs) > 1 or not z3.is_true(gs[0]):
            ex.oblige(s.copy(), z3.Or(gs), "%s: cases cover this exit" % L)
        for i, c in enumerate(cases):
            g = simp(c.guard)
            if g is False or not ex.feasible(s, g):
                continue
            hit.add(i)
            t = s.copy()
            if g is not True:
                t.assume(g)
            nm = "%s: %s" % (L, c.name or "case %d" % i)
            if o[0] != c.out[0]:
                ex.fail(t, "%s: expected %s, body %ss" % (nm, "an exception" if c.out[0] == "throw" else "normal return",
                                                         o[0]))
                continue
            if o[0] == "throw":
                ti = t.g.get(("exc", o[1].obj))
                if c.out[1] is not ANY and c.out[1] not in (ex.ti_bases(ti) if ti and ti != "ANY" else [ti]):
                    ex.fail(t, "%s: exception type %s instead of %s" % (nm, ti, c.out[1]))
                    continue
                rv = o[1]
                ex.oblige(t, True, "%s: exception type" % nm)
            else:
                rv = o[1]
                if c.out[1] is not ANY and c.out[1] is not None:
                    ex.oblige(t, val_eq(ex, rv, c.out[1]), "%s: result" % nm)
            for l, v in c.upd.items():
                if v is ANY:
                    continue
                w = get_loc(ex, t, l)
                ex.oblige(t, val_eq(ex, w, v), "%s: %s" % (nm, loc_name(ex, l)))
            for pn, pf in c.post:
                fm = pf(t, rv)
                if fm is not None:
                    ex.oblige(t, fm, "%s: %s" % (nm, pn))
            self.check_frame(ex, st0, t, ctx, c, nm)

    def check_frame(self, ex, st0, t, ctx, c, nm):
        allowed = set(c.upd) | set(self.modifies(ctx))
        allow_obj = getattr(self, "frame_objs", lambda ctx: ())(ctx)
        for k, v in t.g.items():
            if k in st0.g and ("g", k) not in allowed and not same(st0.g[k], v):
                if isinstance(k, tuple) and k[0] in ("pcl", "exc") or k == "caught":
                    continue
                if isinstance(k, tuple) and len(k) > 1 and k[1] in allow_obj:
                    continue
                ex.oblige(t, val_eq(ex, v, st0.g[k]), "%s: frame, %r unchanged" % (nm, k))
        for ob, cells in t.mem.items():
            c0 = st0.mem.get(ob)
            if c0 is None or c0 is cells or ob in allow_obj:
                continue
            if ex.objs[ob].kind in ("exc",):
                continue
            for off, (n, v) in cells.items():
                w = c0.get(off)
                if w is None:
                    if ex.objs[ob].lazy:
                        # a lazily read cell that was only read holds its entry value; a written one differs
                        lz = t.g.get(("lazyinit", ob, off))
                        continue
                    continue
                if same(w[1], v) and w[0] == n:
                    continue
                if ("c", ob, off, n) in allowed:
                    continue
                ex.oblige(t, val_eq(ex, v, w[1]), "%s: frame, %s unchanged" % (nm, loc_name(ex, ("c", ob, off, n))))


def loc_name(ex, l):
    if l[0] == "g":
        return "ghost %s" % (l[1],)
    return "%s+%s" % (ex.objs[l[1]].name, l[2])


def get_loc(ex, st, l):
    if l[0] == "g":
        return st.g.get(l[1])
    _, o, off, n = l
    c = ex.get_cells(st, o).get(off)
    if c is None or c[0] != n:
        from llir import IntTy
        return ex.load(st, Ptr(o, off), IntTy(8 * n))
    return c[1]


def set_loc(ex, st, l, v):
    if l[0] == "g":
        if v is ANY:
            old = st.g.get(l[1])
            if old is None:
                st.g.pop(l[1], None)
                return
            k = l[1]
            h = ex.ghost_havoc.get(k) or (ex.ghost_havoc.get(k[0]) if isinstance(k, tuple) else None)
            if h:
                st.g[k] = h(ex, old, k)
            elif isinstance(old, bool):
                st.g[k] = ex.fresh(str(k), "bool")
            elif isinstance(old, int):
                st.g[k] = ex.fresh(str(k), "int")
            else:
                st.g[k] = ex.havoc_value(old, str(k))
        else:
            st.g[l[1]] = v
        return
    _, o, off, n = l
    if v is ANY:
        c = ex.get_cells(st, o).get(off)
        old = c[1] if c is not None and c[0] == n else 0
        if isinstance(old, int) or old is UNDEF:
            v = ex.fresh("%s+%d" % (ex.objs[o].name, off), 8 * n)
        else:
            v = ex.havoc_value(old, "%s+%d" % (ex.objs[o].name, off))
    elif z3.is_bool(v) or isinstance(v, bool):
        v = bv(v, 8 * n)
        v = v if not z3.is_bv_value(v) else v.as_long()
    ex.store_cell(st, Ptr(o, off), n, v)


def val_eq(ex, a, b):
    """equality of two symbolic values as a formula"""
    if same(a, b):
        return True
    if a is UNDEF or b is UNDEF or a is None or b is None:
        return False
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        fs = [toB(val_eq(ex, x, y)) for x, y in zip(a, b)]
        return z3.And(fs) if fs else True
    if isinstance(a, (Ptr, Abs, Fn)) or isinstance(b, (Ptr, Abs, Fn)):
        try:
            return ex.ptrcmp("eq", a, b)
        except Unsupported:
            return False
    if is_conc(a) and is_conc(b):
        return a == b
    if is_conc(a):
        a, b = b, a
    if is_conc(b):
        if z3.is_bool(a):
            return a if b else z3.Not(a)
        if z3.is_bv(a):
            return a == z3.BitVecVal(int(b), a.size())
        return a == b
    if z3.is_bool(a) and z3.is_bv(b):
        a = bv(a, b.size())
    elif z3.is_bv(a) and z3.is_bool(b):
        b = bv(b, a.size())
    elif z3.is_bv(a) and z3.is_bv(b) and a.size() != b.size():
        n = max(a.size(), b.size())
        a = z3.ZeroExt(n - a.size(), a) if a.size() < n else a
        b = z3.ZeroExt(n - b.size(), b) if b.size() < n else b
    if a.sort() != b.sort():
        return False
    if z3.is_fp(a):
        return z3.Or(z3.fpEQ(a, b), a == b)
    return a == b
