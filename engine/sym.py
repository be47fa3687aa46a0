"""Verification-condition generator: path-wise symbolic execution of the LLVM IR
that clang emits from /repo/include on every run, function by function.

Callees under contract are replaced by their contract (the callee is verified
against the same contract separately); loops are cut by inductive invariants
(Houdini over the candidate pool of the contract) unless every path through them
is decided within a few iterations (complete unrolling, no bound assumed)."""
import re, time
from fractions import Fraction
import z3
from llir import (Module, Unsupported, size_of, align_of, field_off, IntTy, PTR, DOUBLE, Ty)


class NeedInv(Exception):
    def __init__(self, fn, header):
        self.fn, self.header = fn, header
        super().__init__("loop %s:%s needs an invariant" % (fn, header))


class Budget(Exception):
    pass


class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off=0):
        self.obj, self.off = obj, off

    def __repr__(self):
        return "Ptr(%s,%s)" % (self.obj, self.off)

    def __eq__(self, o):
        if not isinstance(o, Ptr) or self.obj != o.obj:
            return False
        a, b = self.off, o.off
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if isinstance(a, int) or isinstance(b, int):
            return False
        return a.eq(b)

    def __hash__(self):
        return hash(self.obj)


NULL = Ptr(None, 0)


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Fn(%s)" % self.name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Abs:
    """abstract pointer-sized value (iterator, opaque library handle)"""
    __slots__ = ("kind", "d")

    def __init__(self, kind, *d):
        self.kind, self.d = kind, tuple(d)

    def __repr__(self):
        return "Abs(%s,%s)" % (self.kind, self.d)

    def __eq__(self, o):
        return isinstance(o, Abs) and o.kind == self.kind and len(o.d) == len(self.d) and all(
            same(a, b) for a, b in zip(self.d, o.d))

    def __hash__(self):
        return hash(self.kind)


class _Undef:
    def __repr__(self):
        return "UNDEF"


UNDEF = _Undef()


def same(a, b):
    """syntactic equality of symbolic values"""
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if z3.is_expr(a) or z3.is_expr(b):
        return False
    return type(a) == type(b) and a == b


class ObjInfo:
    __slots__ = ("id", "name", "size", "kind", "lazy", "const", "ty")

    def __init__(self, id, name, size, kind, lazy=False, const=False, ty=None):
        self.id, self.name, self.size, self.kind, self.lazy, self.const, self.ty = id, name, size, kind, lazy, const, ty


class State:
    __slots__ = ("pc", "mem", "own", "g", "freed", "trace", "infeasible")

    def __init__(self):
        self.pc = []
        self.mem = {}
        self.own = set()
        self.g = {}
        self.freed = frozenset()
        self.trace = ()
        self.infeasible = False

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.g = dict(self.g)
        s.freed = self.freed
        s.trace = self.trace
        return s

    def cells(self, obj):
        return self.mem.get(obj)

    def wcells(self, obj):
        c = self.mem.get(obj)
        if obj not in self.own:
            c = dict(c) if c is not None else {}
            self.mem[obj] = c
            self.own.add(obj)
        return c

    def assume(self, f):
        if f is True:
            return
        if f is False:
            self.pc.append(z3.BoolVal(False))
            return
        self.pc.append(f)


class Obl:
    __slots__ = ("name", "ok", "status", "why", "line", "fn", "t", "backend", "model", "trace")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))


def is_conc(v):
    return isinstance(v, (int, bool)) and not z3.is_expr(v)


def bv(v, n):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        return z3.BitVecVal(v, n)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    return v


def mask(v, n):
    return v & ((1 << n) - 1)


def sgn(v, n):
    v = mask(v, n)
    return v - (1 << n) if v >> (n - 1) else v


def toB(v):
    if isinstance(v, (bool, int)) and not z3.is_expr(v):
        return z3.BoolVal(bool(v))
    return v


def simp(e):
    """simplify; return python bool/int when concrete"""
    if not z3.is_expr(e):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    if z3.is_bv_value(e):
        return e.as_long()
    return e


class Theory:
    """Spec functions: uninterpreted symbols with definitional axioms, instantiated on the ground terms
    of a query for a few rounds; lemmas are instantiated the same way (each lemma is itself an obligation)."""

    def __init__(self):
        self.defs = {}      # decl id -> (name, fn(args)->list of formulas)
        self.cache = {}
        self.keep = []
        self.apps_cache = {}

    def define(self, decl, fn):
        """definitional axiom decl(args) == fn(*args)"""
        self.defs[decl.get_id()] = (decl, lambda t, fn=fn: [t == fn(*t.children())])
        self.keep.append(decl)
        return decl

    def lemma(self, decl, fn):
        """for every ground term t headed by decl: fn(t) -> list of formulas"""
        old = self.defs.get(decl.get_id())
        if old:
            o = old[1]
            self.defs[decl.get_id()] = (decl, lambda t: o(t) + fn(t))
        else:
            self.defs[decl.get_id()] = (decl, fn)
        self.keep.append(decl)

    def apps(self, e):
        """ground applications of defined symbols in e"""
        out = []
        seen = set()
        st = [e]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(x):
                if x.decl().get_id() in self.defs:
                    out.append(x)
                st.extend(x.children())
        return out

    def apps_c(self, e):
        i = e.get_id()
        r = self.apps_cache.get(i)
        if r is None:
            r = self.apps(e)
            self.apps_cache[i] = r
            self.keep.append(e)
        return r

    def unfold(self, exprs, rounds, limit=4000):
        if not self.defs:
            return []
        done = {}
        axioms = []
        front = list(exprs)
        for _ in range(rounds):
            new = []
            for e in front:
                for t in self.apps_c(e):
                    i = t.get_id()
                    if i in done:
                        continue
                    done[i] = t
                    ax = self.cache.get(i)
                    if ax is None:
                        ax = self.defs[t.decl().get_id()][1](t)
                        self.cache[i] = ax
                        self.keep.append(t)
                    for a in ax:
                        new.append(a)
                        if len(axioms) + len(new) > limit:
                            return axioms + new
            axioms += new
            front = new
            if not new:
                break
        return axioms


class Executor:
    UNROLL = 6

    def __init__(self, mod, theory=None, fpmode="real", timeout=20000, name=""):
        self.mod = mod
        self.th = theory or Theory()
        self.fpmode = fpmode
        self.timeout = timeout
        self.name = name
        self.contracts = []        # (regex, handler, label, trusted)
        self._cmatch = {}
        self.nocontract = set()
        self.used = {}             # label -> count (trusted / contract)
        self.obls = []
        self.objs = {}
        self.nobj = 0
        self.gobj = {}
        self.gmem = {}
        self.nfresh = 0
        self.invloops = set()
        self.inv_pool = None       # fn(ex, st, stL, f, header, modset) -> [(name, formula)]
        self.measures = None       # fn(ex, st) -> [(name, Int/BV term)]
        self.stack = []
        self.solver_time = 0.0
        self.nqueries = 0
        self.inlined = set()
        self.abs_havoc = {}
        self.abs_cmp = {}
        self.lazy_load = {}        # obj kind -> fn(ex, st, ptr, ty)
        self.covers = {}
        self.quiet = 0
        self.sat_cache = {}
        self.rounds = 3
        self.deadline = None
        self.maxdepth = 60
        self.ghost_havoc = {}
        self.loop_info = []
        self.curline = 0
        self.paths = 0
        self.no_overflow = True
        self.auto_term = True
        self.call_observers = []
        self.merge = False
        self.eager = False
        self.nocounted = False
        self.phi_counted = set()
        self.mulfn = None
        self.rmul = None
        self.cand_timeout = None
        self.canon = None          # (before(state), after(before, state, outcome)): canonical forms of 32-bit results
        self.norm = None            # hook: brings a state into loop-invariant shape at a back edge
        self.keep_kinds = ()        # objects whose 4-byte cells (type tags) are never merged when they differ
        self.ghost_keep = ()        # ghost components that are never merged when they differ
        self.ghost_droppable = {'lexpos'}
        self.loop_snap = {}
        self.nmerged = 0
        self._order = {}

    # ------------------------------------------------------------ fresh
    def fresh(self, name, sort):
        self.nfresh += 1
        n = "%s!%d" % (name, self.nfresh)
        if isinstance(sort, str):
            return {"int": z3.Int, "bool": z3.Bool, "real": z3.Real}[sort](n)
        if isinstance(sort, int):
            return z3.BitVec(n, sort)
        return z3.Const(n, sort)

    def fresh_fp(self, name):
        if self.fpmode == "real":
            return self.fresh(name, "real")
        return self.fresh(name, z3.Float64())

    def new_obj(self, name, size, kind, lazy=False, const=False, ty=None):
        self.nobj += 1
        o = ObjInfo(self.nobj, name, size, kind, lazy, const, ty)
        self.objs[o.id] = o
        return o.id

    # ------------------------------------------------------------ solving
    def _solver(self, t):
        s = z3.Solver()
        s.set("timeout", t)
        return s

    def feasible(self, st, cond=None):
        if st.infeasible:
            return False
        if cond is not None:
            cond = simp(cond)
            if cond is False:
                return False
            if cond is True and not st.pc:
                return True
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        key = (tuple(p.get_id() for p in st.pc), cond if isinstance(cond, bool) or cond is None else cond.get_id())
        r = self.sat_cache.get(key)
        if r is not None:
            return r
        s = self._solver(2000)
        for p in st.pc:
            s.add(p)
        if cond is not None and cond is not True:
            s.add(cond)
        t = time.time()
        r = s.check()
        if r != z3.unsat:
            # cheap unfolding round to prune
            exprs = list(st.pc) + ([cond] if z3.is_expr(cond) else [])
            ax = self.th.unfold(exprs, 1)
            if ax:
                for a in ax:
                    s.add(a)
                r = s.check()
        self.solver_time += time.time() - t
        self.nqueries += 1
        res = r != z3.unsat
        self.sat_cache[key] = res
        self.th.keep.append((list(st.pc), cond))
        return res

    def prove(self, st, goal, rounds=None, extra=(), timeout=None):
        """-> (status, model) status in proved/failed/unknown"""
        goal = simp(goal)
        if goal is True:
            return "proved", None
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")
        if st.infeasible:
            return "proved", None
        goal = toB(goal)
        hy = list(st.pc) + list(extra)
        res, model = "unknown", None
        t = time.time()
        R = rounds if rounds is not None else self.rounds
        for r in ([1, R] if R > 1 else [R]):
            s = self._solver(timeout or self.timeout)
            ax = self.th.unfold(hy + [goal], r)
            for h in hy:
                s.add(h)
            for a in ax:
                s.add(a)
            s.add(z3.Not(goal))
            c = s.check()
            self.nqueries += 1
            if c == z3.unsat:
                res = "proved"
                self.last_smt = s
                break
            if c == z3.sat:
                res, model = "failed", s.model()
            else:
                res, model = "unknown", None
            if not self.th.defs:
                break
        self.solver_time += time.time() - t
        return res, model

    def where(self):
        return self.stack[-1] if self.stack else self.name

    def oblige(self, st, goal, name, line=None, assume=True, rounds=None):
        if self.quiet:
            if assume:
                st.assume(toB(goal)) if not (goal is True) else None
            return True
        t = time.time()
        status, model = self.prove(st, goal, rounds)
        o = Obl(name=name, ok=(status == "proved"), status=status, line=line or self.curline, fn=self.where(),
                t=time.time() - t, backend="z3", trace=st.trace[-40:])
        if model is not None:
            o.model = model
        self.obls.append(o)
        if assume and goal is not True:
            st.assume(toB(goal))
        return o.ok

    def fail(self, st, name, why=""):
        """an obligation that fails unless the path is infeasible"""
        return self.oblige(st, False, name, assume=False)

    # ------------------------------------------------------------ memory
    def alloc(self, st, name, size, kind, lazy=False, ty=None):
        o = self.new_obj(name, size, kind, lazy, ty=ty)
        st.mem[o] = {}
        st.own.add(o)
        return Ptr(o, 0)

    def _const_cells(self, op, ty, off, out):
        if op.k == "zero" or op.k == "undef":
            n = size_of(ty)
            if n:
                out[off] = (n, 0)
        elif op.k == "cstr":
            for i, b in enumerate(op.v):
                out[off + i] = (1, b)
        elif op.k == "agg":
            if ty.k == "arr":
                for i, a in enumerate(op.args):
                    self._const_cells(a, ty.el, off + i * size_of(ty.el), out)
            else:
                for i, a in enumerate(op.args):
                    self._const_cells(a, ty.el[i], off + field_off(ty, i), out)
        else:
            out[off] = (size_of(ty), self.const(op))

    def global_ptr(self, name):
        name = self.mod.resolve(name)
        if name in self.mod.funcs and name not in self.mod.globals:
            return Fn(name)
        if name in self.gobj:
            return Ptr(self.gobj[name], 0)
        g = self.mod.globals.get(name)
        if g is None:
            raise Unsupported("unknown global " + name)
        ty, init, const = g
        size = size_of(ty) if ty.k != "opaque" else None
        ext = init is None
        o = self.new_obj("@" + name, size, "global", lazy=not const, const=const, ty=ty)
        self.gobj[name] = o
        cells = {}
        self.gmem[o] = cells
        if init is not None and const:
            self._const_cells(init, ty, 0, cells)
        if ext:
            self.objs[o].kind = "extglobal"
        return Ptr(o, 0)

    def const(self, op):
        k = op.k
        if k == "int":
            return bool(op.v) if op.ty.n == 1 else op.v
        if k == "null":
            return NULL
        if k == "global":
            return self.global_ptr(op.v)
        if k == "fp":
            c = self.fpconst(op.v)
            return z3.simplify(z3.fpFPToFP(z3.RNE(), c, z3.Float32())) if op.ty.k == "float" and self.fpmode == "fp" else c
        if k == "undef":
            return UNDEF
        if k == "zero":
            if op.ty.k == "ptr":
                return NULL
            if op.ty.k == "i":
                return 0
            if op.ty.k == "double":
                return self.fpconst("0.0")
            if op.ty.k == "float" and self.fpmode == "fp":
                return z3.FPVal(0.0, z3.Float32())
            if op.ty.k == "struct":
                return tuple(self.const(type(op)("zero", e)) for e in op.ty.el)
            return 0
        if k == "gep":
            base = self.const(op.args[0])
            return self.gep(op.v, base, [(a.ty, self.const(a)) for a in op.args[1:]])
        if k == "agg":
            return tuple(self.const(a) for a in op.args)
        if k == "cast":
            v = self.const(op.args[0])
            if op.v == "inttoptr":
                if v == 0:
                    return NULL
                return Abs("int", v)
            return v
        if k == "cbin":
            a, b = self.const(op.args[0]), self.const(op.args[1])
            return self.binop(op.v, a, b, op.ty.n)
        raise Unsupported("const %r" % op)

    def fpconst(self, s):
        import struct
        if isinstance(s, str):
            if s.startswith("0x"):
                f = struct.unpack(">d", bytes.fromhex(s[2:].rjust(16, "0")))[0]
            else:
                f = float(s)
        else:
            f = float(s)
        if self.fpmode == "real":
            if f != f or f in (float("inf"), float("-inf")):
                return Abs("fpspecial", repr(f))
            return z3.RealVal(str(Fraction(repr(f))))
        return z3.FPVal(f, z3.Float64())

    def gep(self, ty, base, idxs):
        if isinstance(base, Abs):
            if all(i == 0 for _, i in idxs):
                return base
            h = self.abs_cmp.get(("gep", base.kind))
            if h:
                return h(self, base, ty, idxs)
            raise Unsupported("gep on abstract pointer %r" % base)
        if base is UNDEF:
            raise Unsupported("gep on undefined pointer")
        if isinstance(base, Fn):
            raise Unsupported("gep on function pointer")
        off = base.off
        sym = None
        it, iv = idxs[0]
        terms = [(size_of(ty) if ty.k not in ("void",) else 1, it, iv)]
        t = ty
        c = 0
        for it, iv in idxs[1:]:
            if t.k == "struct":
                if not is_conc(iv):
                    raise Unsupported("symbolic struct index")
                c += field_off(t, iv)
                t = t.el[iv]
            elif t.k == "arr":
                terms.append((size_of(t.el), it, iv))
                t = t.el
            else:
                raise Unsupported("gep into %r" % t)
        for sz, it, iv in terms:
            if is_conc(iv):
                c += sz * sgn(int(iv), it.n)
            else:
                if iv is UNDEF:
                    raise Unsupported("gep with undefined index")
                e = iv if it.n == 64 else z3.SignExt(64 - it.n, iv)
                e = e * sz if sz != 1 else e
                sym = e if sym is None else sym + e
        if is_conc(off):
            off = off + c
            if sym is not None:
                off = simp(sym + off) if off else simp(sym)
        else:
            off = simp(off + c) if sym is None else simp(off + sym + c)
        if isinstance(off, int) and off >= 1 << 63:
            off = sgn(off, 64)
        return Ptr(base.obj, off)

    def conv_load(self, v, sz, ty):
        """reinterpret a cell value of matching size for type ty"""
        if v is UNDEF:
            return UNDEF
        if isinstance(v, Abs):
            h = self.abs_cmp.get(("conv", v.kind))
            if h:
                return h(self, v, sz, ty)
        if ty.k == "i":
            if isinstance(v, bool):
                return v if ty.n == 1 else int(v)
            if isinstance(v, int):
                return bool(v & 1) if ty.n == 1 else mask(v, ty.n)
            if z3.is_bv(v):
                if ty.n == 1:
                    return simp(z3.Extract(0, 0, v) == 1)
                if v.size() == ty.n:
                    return v
                return simp(z3.Extract(ty.n - 1, 0, v)) if v.size() > ty.n else simp(z3.ZeroExt(ty.n - v.size(), v))
            if z3.is_bool(v):
                return v if ty.n == 1 else bv(v, ty.n)
            if isinstance(v, Abs) and v.kind == "int" and ty.n == 64 and isinstance(v.d[0], int):
                return mask(v.d[0], 64)
            if isinstance(v, (Ptr, Abs, Fn)) and ty.n == 64:
                return v
            if z3.is_fp(v):
                return z3.fpToIEEEBV(v)
            return v
        if ty.k == "ptr":
            if v == 0 and isinstance(v, int):
                return NULL
            return v
        if ty.k == "float":
            if self.fpmode == "fp" and z3.is_bv(v):
                return z3.fpBVToFP(v, z3.Float32())
            if self.fpmode == "fp" and isinstance(v, int):
                return z3.simplify(z3.fpBVToFP(z3.BitVecVal(v, 32), z3.Float32()))
            return v
        if ty.k == "double":
            if isinstance(v, int) and v == 0:
                return self.fpconst("0.0")
            if z3.is_bv(v) and self.fpmode == "fp":
                return z3.fpBVToFP(v, z3.Float64())
            return v
        return v

    def check_ptr(self, st, p, what):
        if isinstance(p, Abs) or p is UNDEF or isinstance(p, Fn):
            raise Unsupported("%s through %r" % (what, p))
        if z3.is_expr(p) or isinstance(p, int):
            raise Unsupported("%s through integer %r" % (what, p))
        if p.obj is None:
            self.fail(st, "null pointer %s" % what)
            st.infeasible = True
            return False
        if p.obj in st.freed:
            self.fail(st, "%s after free of %s" % (what, self.objs[p.obj].name))
            st.infeasible = True
            return False
        return True

    def get_cells(self, st, obj):
        c = st.mem.get(obj)
        if c is None:
            c = self.gmem.get(obj)
            if c is None:
                c = {}
        return c

    def load(self, st, p, ty):
        if isinstance(p, Abs):
            h = self.abs_cmp.get(("load", p.kind))
            if h:
                return h(self, st, p, ty)
        if not self.check_ptr(st, p, "read"):
            return UNDEF
        if ty.k in ("struct", "arr"):
            # register-sized aggregates
            if ty.k == "struct":
                return tuple(self.load(st, Ptr(p.obj, p.off + field_off(ty, i)), e) for i, e in enumerate(ty.el))
            return tuple(self.load(st, Ptr(p.obj, p.off + i * size_of(ty.el)), ty.el) for i in range(ty.n))
        sz = size_of(ty)
        info = self.objs[p.obj]
        hook = self.lazy_load.get(info.kind)
        if hook:
            r = hook(self, st, p, ty)
            if r is not None:
                return r
        cells = self.get_cells(st, p.obj)
        if not is_conc(p.off):
            return self.load_sym(st, p, ty, cells, info)
        off = p.off
        if info.size is not None and (off < 0 or off + sz > info.size):
            self.fail(st, "out-of-bounds read of %s" % info.name)
            st.infeasible = True
            return UNDEF
        c = cells.get(off)
        if c is not None and c[0] == sz:
            return self.conv_load(c[1], sz, ty)
        if c is not None and c[0] < sz and ty.k == "i":
            # assemble from smaller cells
            parts, o = [], off
            ok = True
            while o < off + sz:
                cc = cells.get(o)
                if cc is None or o + cc[0] > off + sz:
                    ok = False
                    break
                parts.append((cc[0], cc[1]))
                o += cc[0]
            if ok:
                if any(v is UNDEF for _, v in parts):
                    return UNDEF
                if all(isinstance(v, int) for _, v in parts):
                    r, sh = 0, 0
                    for n, v in parts:
                        r |= mask(int(v), 8 * n) << sh
                        sh += 8 * n
                    return self.conv_load(r, sz, ty)
                return simp(z3.Concat(*[bv(v, 8 * n) for n, v in reversed(parts)]))
        # covered by a larger cell?
        for o, (n, v) in cells.items():
            if o <= off and off + sz <= o + n and isinstance(n, int):
                if isinstance(v, int):
                    return self.conv_load(mask(int(v) >> (8 * (off - o)), 8 * sz), sz, ty)
                if z3.is_bv(v):
                    lo = 8 * (off - o)
                    return self.conv_load(simp(z3.Extract(lo + 8 * sz - 1, lo, v)), sz, ty)
                if v is UNDEF:
                    return UNDEF
                if isinstance(v, Abs) and o == off and ("conv", v.kind) in self.abs_cmp:
                    return self.conv_load(v, sz, ty)
                raise Unsupported("partial read of %r in %s" % (v, info.name))
        for o, (n, v) in cells.items():
            if o < off + sz and off < o + n:
                raise Unsupported("overlapping read in %s at %d" % (info.name, off))
        if info.lazy:
            v = self.fresh_of(ty, "%s+%d" % (info.name, off))
            if info.kind == "global" and p.obj not in st.mem:
                st.mem[p.obj] = dict(self.gmem.get(p.obj, {}))
            st.wcells(p.obj)[off] = (sz, v if ty.k != "i" or ty.n != 1 else bv(v, 8))
            return v
        return UNDEF

    def fresh_of(self, ty, name):
        if ty.k == "i":
            if ty.n == 1:
                return self.fresh(name, "bool")
            return self.fresh(name, ty.n)
        if ty.k == "double":
            return self.fresh_fp(name)
        if ty.k == "ptr":
            return Abs("unk", self.fresh(name, 64))
        raise Unsupported("fresh value of type %r" % ty)

    def load_sym(self, st, p, ty, cells, info):
        sz = size_of(ty)
        hook = self.abs_cmp.get(("symload", info.kind))
        if hook:
            return hook(self, st, p, ty)
        if info.size is None:
            raise Unsupported("symbolic read of %s" % info.name)
        off = p.off
        n = info.size
        self.oblige(st, z3.And(z3.ULE(off, n - sz), z3.URem(off, z3.BitVecVal(sz, 64)) == 0) if sz > 1 else
                    z3.ULE(off, n - sz), "index into %s in bounds" % info.name)
        vals = []
        for o in range(0, n - sz + 1, sz):
            vals.append((o, self.load(st, Ptr(p.obj, o), ty)))
        if any(v is UNDEF or isinstance(v, (Ptr, Abs, Fn)) for _, v in vals):
            raise Unsupported("symbolic read of non-integer cells of %s" % info.name)
        # run-length ite
        runs = []
        for o, v in vals:
            if runs and same(runs[-1][1], v):
                runs[-1][2] = o
            else:
                runs.append([o, v, o])
        conv = (lambda v: bv(v, ty.n)) if ty.k == "i" and ty.n != 1 else (toB if ty.k == "i" else lambda v: v)
        r = conv(runs[-1][1])
        for o, v, last in reversed(runs[:-1]):
            r = z3.If(z3.ULE(off, last), conv(v), r)
        return simp(r)

    def store(self, st, p, ty, v):
        if isinstance(p, Abs):
            h = self.abs_cmp.get(("store", p.kind))
            if h:
                return h(self, st, p, ty, v)
        if not self.check_ptr(st, p, "write"):
            return
        if ty.k == "struct":
            for i, e in enumerate(ty.el):
                self.store(st, Ptr(p.obj, p.off + field_off(ty, i)), e, v[i] if v is not UNDEF else UNDEF)
            return
        sz = size_of(ty)
        if ty.k == "i" and ty.n == 1:
            v = bv(v, 8) if not is_conc(v) else int(v)
        self.store_cell(st, p, sz, v)

    def store_cell(self, st, p, sz, v):
        info = self.objs[p.obj]
        if info.const:
            self.fail(st, "write to constant %s" % info.name)
            st.infeasible = True
            return
        hook = self.abs_cmp.get(("storehook", info.kind))
        if hook and hook(self, st, p, sz, v):
            return
        if not is_conc(p.off):
            hook = self.abs_cmp.get(("symstore", info.kind))
            if hook:
                return hook(self, st, p, sz, v)
            raise Unsupported("symbolic write to %s" % info.name)
        off = p.off
        if info.size is not None and (off < 0 or off + sz > info.size):
            self.fail(st, "out-of-bounds write of %s" % info.name)
            st.infeasible = True
            return
        if info.kind == "global" and p.obj not in st.mem:
            st.mem[p.obj] = dict(self.gmem.get(p.obj, {}))
        cells = st.wcells(p.obj)
        if off in cells and cells[off][0] == sz:
            cells[off] = (sz, v)
            return
        for o in [o for o, (n, _) in cells.items() if o < off + sz and off < o + n]:
            n, w = cells.pop(o)
            if o < off:
                k = off - o
                if isinstance(w, int):
                    cells[o] = (k, mask(int(w), 8 * k))
                elif z3.is_bv(w):
                    cells[o] = (k, simp(z3.Extract(8 * k - 1, 0, w)))
                elif w is UNDEF:
                    cells[o] = (k, UNDEF)
            if o + n > off + sz:
                k = o + n - off - sz
                sh = off + sz - o
                if isinstance(w, int):
                    cells[off + sz] = (k, mask(int(w) >> (8 * sh), 8 * k))
                elif z3.is_bv(w):
                    cells[off + sz] = (k, simp(z3.Extract(8 * (sh + k) - 1, 8 * sh, w)))
                elif w is UNDEF:
                    cells[off + sz] = (k, UNDEF)
        cells[off] = (sz, v)

    def memcpy(self, st, d, s, n):
        h = getattr(self, "memcpy_hook", None)
        if h and h(self, st, d, s, n) is not None:
            return
        if not is_conc(n):
            raise Unsupported("memcpy of symbolic length")
        if n == 0:
            return
        if not self.check_ptr(st, d, "write") or not self.check_ptr(st, s, "read"):
            return
        if not (is_conc(d.off) and is_conc(s.off)):
            raise Unsupported("memcpy at symbolic offset")
        src = self.get_cells(st, s.obj)
        sinfo = self.objs[s.obj]
        moved = []
        o, end = s.off, s.off + n
        if sinfo.size is not None and end > sinfo.size:
            self.fail(st, "out-of-bounds read of %s" % sinfo.name)
            st.infeasible = True
            return
        hook = self.lazy_load.get(sinfo.kind)
        if hook:
            hook(self, st, s, IntTy(64))
            src = self.get_cells(st, s.obj)
        for co, (cn, cv) in list(src.items()):
            if co >= end or co + cn <= o:
                continue
            if co >= o and co + cn <= end:
                moved.append((co - o, cn, cv))
            else:
                lo, hi = max(co, o), min(co + cn, end)
                if isinstance(cv, int):
                    moved.append((lo - o, hi - lo, mask(int(cv) >> (8 * (lo - co)), 8 * (hi - lo))))
                elif z3.is_bv(cv):
                    moved.append((lo - o, hi - lo, simp(z3.Extract(8 * (hi - co) - 1, 8 * (lo - co), cv))))
                elif cv is UNDEF:
                    pass
                else:
                    raise Unsupported("memcpy splits a cell of %s" % sinfo.name)
        covered = sum(m[1] for m in moved)
        if covered < n and sinfo.lazy:
            # materialise 8-byte words
            w = 8
            have = sorted((m[0], m[1]) for m in moved)
            pos = 0
            gaps = []
            for a, b in have + [(n, 0)]:
                if a > pos:
                    gaps.append((pos, a - pos))
                pos = max(pos, a + b)
            for a, b in gaps:
                v = self.fresh("%s+%d" % (sinfo.name, s.off + a), 8 * b)
                self.store_cell(st, Ptr(s.obj, s.off + a), b, v)
                moved.append((a, b, v))
        dinfo = self.objs[d.obj]
        if dinfo.size is not None and d.off + n > dinfo.size:
            self.fail(st, "out-of-bounds write of %s" % dinfo.name)
            st.infeasible = True
            return
        # clear destination
        self.store_cell(st, Ptr(d.obj, d.off), n, UNDEF)
        cells = st.wcells(d.obj)
        cells.pop(d.off, None)
        for a, b, v in moved:
            cells[d.off + a] = (b, v)

    # ------------------------------------------------------------ arithmetic
    def binop(self, op, a, b, n):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, (Ptr, Abs)) or isinstance(b, (Ptr, Abs)):
            if op == "sub" and isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj == b.obj:
                    if is_conc(a.off) and is_conc(b.off):
                        return mask(a.off - b.off, n)
                    return simp(bv(a.off, 64) - bv(b.off, 64))
            if op == "sub" and isinstance(a, Abs) and isinstance(b, Abs) and a.kind == b.kind and ("sub", a.kind) in self.abs_cmp:
                return self.abs_cmp[("sub", a.kind)](self, a, b)
            raise Unsupported("%s on pointers %r %r" % (op, a, b))
        if n == 1:
            if is_conc(a) and is_conc(b):
                a, b = bool(a), bool(b)
                return {"and": a and b, "or": a or b, "xor": a != b, "add": a != b, "sub": a != b, "mul": a and b}[op]
            a, b = toB(a), toB(b)
            if op == "and":
                return simp(z3.And(a, b))
            if op == "or":
                return simp(z3.Or(a, b))
            if op in ("xor", "add", "sub"):
                return simp(z3.Xor(a, b))
            raise Unsupported("i1 " + op)
        if is_conc(a) and is_conc(b):
            a, b = int(a), int(b)
            if op == "add":
                r = a + b
            elif op == "sub":
                r = a - b
            elif op == "mul":
                r = a * b
            elif op == "and":
                r = a & b
            elif op == "or":
                r = a | b
            elif op == "xor":
                r = a ^ b
            elif op == "shl":
                r = a << b if b < n else 0
            elif op == "lshr":
                r = mask(a, n) >> b if b < n else 0
            elif op == "ashr":
                r = sgn(a, n) >> min(b, n - 1)
            elif op == "udiv":
                r = mask(a, n) // mask(b, n) if b else 0
            elif op == "urem":
                r = mask(a, n) % mask(b, n) if b else 0
            elif op == "sdiv":
                x, y = sgn(a, n), sgn(b, n)
                r = (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1) if y else 0
            elif op == "srem":
                x, y = sgn(a, n), sgn(b, n)
                r = abs(x) % abs(y) * (1 if x >= 0 else -1) if y else 0
            else:
                raise Unsupported(op)
            return mask(r, n)
        x, y = bv(a, n), bv(b, n)
        if op == "mul" and self.mulfn:
            r = self.mulfn(x, y, n)
            if r is not None:
                return r
        r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y,
             "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y),
             "ashr": lambda: x >> y, "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y),
             "sdiv": lambda: x / y, "srem": lambda: z3.SRem(x, y)}[op]()
        return simp(r)

    def arith_checks(self, st, I, a, b):
        n = I.ty.n
        op = I.op
        if n == 1 or a is UNDEF or b is UNDEF or isinstance(a, (Ptr, Abs)) or isinstance(b, (Ptr, Abs)):
            return
        if op in ("add", "sub", "mul") and "nsw" in (I.x or []) and self.no_overflow:
            if is_conc(a) and is_conc(b):
                x, y = sgn(int(a), n), sgn(int(b), n)
                r = {"add": x + y, "sub": x - y, "mul": x * y}[op]
                if -(1 << (n - 1)) <= r < (1 << (n - 1)):
                    return
                self.fail(st, "signed overflow in %s" % op)
                return
            x, y = bv(a, n), bv(b, n)
            if op == "add":
                c = z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y))
            elif op == "sub":
                c = z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True))
            else:
                c = z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y))
            self.oblige(st, c, "no signed overflow in %s" % op)
        elif op in ("shl", "lshr", "ashr") and not is_conc(b):
            self.oblige(st, z3.ULT(bv(b, n), n), "shift amount in range")
        elif op in ("udiv", "sdiv", "urem", "srem") and not (is_conc(b) and b != 0):
            self.oblige(st, bv(b, n) != 0, "division by zero")

    def icmp(self, pred, a, b, ty):
        if a is UNDEF or b is UNDEF:
            raise Unsupported("comparison of undefined value")
        if ty.k == "ptr" or isinstance(a, (Ptr, Abs, Fn)) or isinstance(b, (Ptr, Abs, Fn)):
            return self.ptrcmp(pred, a, b)
        n = ty.n
        if n == 1:
            if is_conc(a) and is_conc(b):
                r = bool(a) == bool(b)
                return r if pred == "eq" else not r
            r = simp(toB(a) == toB(b))
            return r if pred == "eq" else (simp(z3.Not(r)) if z3.is_expr(r) else not r)
        if is_conc(a) and is_conc(b):
            ua, ub, sa, sb = mask(int(a), n), mask(int(b), n), sgn(int(a), n), sgn(int(b), n)
            return {"eq": ua == ub, "ne": ua != ub, "ult": ua < ub, "ule": ua <= ub, "ugt": ua > ub, "uge": ua >= ub,
                    "slt": sa < sb, "sle": sa <= sb, "sgt": sa > sb, "sge": sa >= sb}[pred]
        x, y = bv(a, n), bv(b, n)
        r = {"eq": lambda: x == y, "ne": lambda: x != y, "ult": lambda: z3.ULT(x, y), "ule": lambda: z3.ULE(x, y),
             "ugt": lambda: z3.UGT(x, y), "uge": lambda: z3.UGE(x, y), "slt": lambda: x < y, "sle": lambda: x <= y,
             "sgt": lambda: x > y, "sge": lambda: x >= y}[pred]()
        return simp(r)

    def ptrcmp(self, pred, a, b):
        neg = pred == "ne"
        if isinstance(a, int):
            a = NULL if a == 0 else a
        if isinstance(b, int):
            b = NULL if b == 0 else b
        if pred not in ("eq", "ne"):
            if isinstance(a, Abs) and isinstance(b, Abs) and a.kind == b.kind and (pred, a.kind) in self.abs_cmp:
                return self.abs_cmp[(pred, a.kind)](self, a, b)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and a.obj is not None:
                return self.icmp({"ult": "ult", "ule": "ule", "ugt": "ugt", "uge": "uge"}[pred],
                                 mask(a.off, 64) if is_conc(a.off) else a.off,
                                 mask(b.off, 64) if is_conc(b.off) else b.off, IntTy(64))
            raise Unsupported("ordered pointer comparison")
        r = None
        if isinstance(a, Fn) or isinstance(b, Fn):
            if isinstance(a, Fn) and isinstance(b, Fn):
                r = a == b
            elif isinstance(a, Ptr) or isinstance(b, Ptr):
                r = False
        elif isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj != b.obj:
                r = False
            elif a.obj is None:
                r = True
            elif is_conc(a.off) and is_conc(b.off):
                r = a.off == b.off
            else:
                r = simp(bv(a.off, 64) == bv(b.off, 64))
        if r is None:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Abs):
                    h = self.abs_cmp.get(("eq", x.kind))
                    if h:
                        r = h(self, x, y)
                        if r is not None:
                            break
                    if isinstance(y, Abs) and x == y:
                        r = True
                        break
                    if x.kind == "unk" and isinstance(y, Abs) and y.kind == "unk":
                        r = simp(x.d[0] == y.d[0])
                        break
                    if x.kind == "unk" and isinstance(y, Ptr) and y.obj is None:
                        r = simp(x.d[0] == 0)
                        break
                    if x.kind == "fn" and isinstance(y, Ptr) and y.obj is None:
                        r = False
                        break
        if r is None:
            raise Unsupported("pointer comparison %r %r" % (a, b))
        if neg:
            return (not r) if isinstance(r, bool) else simp(z3.Not(r))
        return r

    # ------------------------------------------------------------ floats
    def fbin(self, op, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if isinstance(a, Abs) or isinstance(b, Abs):
            raise Unsupported("float op on special value")
        if self.fpmode == "real":
            if op == "fmul" and self.rmul is not None:
                return self.rmul(a, b)
            r = {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[op]()
            return z3.simplify(r)
        rm = z3.RNE()
        return z3.simplify({"fadd": lambda: z3.fpAdd(rm, a, b), "fsub": lambda: z3.fpSub(rm, a, b),
                            "fmul": lambda: z3.fpMul(rm, a, b), "fdiv": lambda: z3.fpDiv(rm, a, b)}[op]())

    def fcmp(self, pred, a, b):
        if a is UNDEF or b is UNDEF:
            raise Unsupported("comparison of undefined float")
        if self.fpmode == "real":
            if isinstance(a, Abs) or isinstance(b, Abs):
                # comparison with an infinity constant: no real equals or exceeds it
                x = b if isinstance(b, Abs) else a
                s = x.d[0]
                inf_right = isinstance(b, Abs)
                if s in ("inf", "-inf"):
                    big = (s == "inf") == inf_right
                    p = pred[1:]
                    if p == "eq":
                        return False
                    if p == "ne":
                        return True
                    return (p in ("lt", "le")) == big
                raise Unsupported("float comparison with nan")
            p = pred[1:]
            if pred == "ord":
                return True
            if pred == "uno":
                return False
            return simp({"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b,
                         "gt": lambda: a > b, "ge": lambda: a >= b}[p]())
        if pred == "ord":
            return simp(z3.Not(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))))
        if pred == "uno":
            return simp(z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b)))
        p = pred[1:]
        r = {"eq": lambda: z3.fpEQ(a, b), "ne": lambda: z3.And(z3.Not(z3.fpEQ(a, b)), z3.Not(z3.fpIsNaN(a)),
                                                             z3.Not(z3.fpIsNaN(b))),
             "lt": lambda: z3.fpLT(a, b), "le": lambda: z3.fpLEQ(a, b), "gt": lambda: z3.fpGT(a, b),
             "ge": lambda: z3.fpGEQ(a, b)}[p]()
        if pred[0] == "u":
            r = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b), r)
        return simp(r)

    def cast(self, st, I, v):
        op, ft, tt = I.op, I.a[0].ty, I.ty
        if v is UNDEF:
            return UNDEF
        if op in ("trunc", "zext", "sext"):
            if isinstance(v, (Ptr, Abs)):
                raise Unsupported("int cast of pointer")
            fn, tn = ft.n, tt.n
            if is_conc(v):
                v = int(v)
                if op == "trunc":
                    r = mask(v, tn)
                elif op == "zext":
                    r = mask(v, fn)
                else:
                    r = mask(sgn(v, fn), tn)
                return bool(r) if tn == 1 else r
            if op == "trunc":
                if tn == 1:
                    return simp(z3.Extract(0, 0, v) == 1)
                return simp(z3.Extract(tn - 1, 0, v))
            if fn == 1:
                if op == "zext":
                    return simp(bv(v, tn))
                return simp(z3.If(v, z3.BitVecVal(-1, tn), z3.BitVecVal(0, tn)))
            return simp(z3.ZeroExt(tn - fn, v) if op == "zext" else z3.SignExt(tn - fn, v))
        if op in ("ptrtoint", "inttoptr", "bitcast"):
            return v
        if op in ("sitofp", "uitofp"):
            n = ft.n
            if is_conc(v):
                return self.fpconst(str(float(sgn(int(v), n) if op == "sitofp" else mask(int(v), n)))) \
                    if self.fpmode == "fp" else z3.RealVal(sgn(int(v), n) if op == "sitofp" else mask(int(v), n))
            if self.fpmode == "real":
                return self.bv2real(v, op == "sitofp")
            rm = z3.RNE()
            if tt.k != "double":
                raise Unsupported("integer to %s" % tt.k)
            return z3.fpToFP(rm, v, z3.Float64()) if op == "sitofp" else z3.fpToFPUnsigned(rm, v, z3.Float64())
        if op in ("fptosi", "fptoui"):
            n = tt.n
            if self.fpmode == "real":
                return self.real2bv(st, v, n, op == "fptosi")
            lo, hi = (-(2.0 ** (n - 1)), 2.0 ** (n - 1)) if op == "fptosi" else (0.0, 2.0 ** n)
            F = z3.Float64()
            inr = z3.And(z3.Not(z3.fpIsNaN(v)), z3.fpGEQ(v, z3.FPVal(lo, F)) if op == "fptosi" else
                         z3.fpGT(v, z3.FPVal(-1.0, F)), z3.fpLT(v, z3.FPVal(hi, F)))
            self.oblige(st, inr, "float to integer conversion in range")
            rtz = z3.RTZ()
            return z3.fpToSBV(rtz, v, z3.BitVecSort(n)) if op == "fptosi" else z3.fpToUBV(rtz, v, z3.BitVecSort(n))
        if op in ("fpext", "fptrunc"):
            if self.fpmode == "fp" and {ft.k, tt.k} == {"float", "double"}:
                return simp(z3.fpFPToFP(z3.RNE(), v, z3.Float64() if op == "fpext" else z3.Float32()))
            if self.fpmode == "fp":
                raise Unsupported("cast of %s to %s" % (ft.k, tt.k))
            return v
        raise Unsupported("cast " + op)

    def bv2real(self, v, signed):
        i = z3.BV2Int(v, signed)
        return z3.ToReal(i)

    def real2bv(self, st, v, n, signed):
        raise Unsupported("float to integer conversion in real mode")

    # ------------------------------------------------------------ calls
    def contract_for(self, name):
        r = self._cmatch.get(name, 0)
        if r != 0:
            return r
        dem = self.mod.dem(name)
        r = None
        for rx, h, label, trusted in self.contracts if name not in self.nocontract else ():
            if rx.search(dem) or rx.search(name):
                r = (h, label, trusted)
                break
        self._cmatch[name] = r
        return r

    def add_contract(self, rx, handler, label=None, trusted=True, front=False):
        c = (re.compile(rx), handler, label or rx, trusted)
        if front:
            self.contracts.insert(0, c)
        else:
            self.contracts.append(c)
        self._cmatch.clear()

    def drop_contract(self, fname):
        """execute the body of this function instead of using its contract"""
        self.nocontract.add(fname)
        self._cmatch.clear()

    def call(self, st, name, args, I=None):
        """-> list of (st, ('ret', v) | ('throw', excptr))"""
        name = self.mod.resolve(name)
        if name.startswith("llvm."):
            return self.intrinsic(st, name, args, I)
        c = self.contract_for(name)
        if c is not None:
            h, label, trusted = c
            r = h(self, st, name, args, I)
            if r is not None:
                k = (label, trusted)
                self.used[k] = self.used.get(k, 0) + 1
                return r
        f = self.mod.funcs.get(name)
        if f is None or not f.defined:
            raise Unsupported("no contract for external function " + self.mod.dem(name))
        if len(self.stack) > self.maxdepth:
            raise Unsupported("inlining depth exceeded at " + self.mod.dem(name))
        if self.stack.count(name) >= 3:
            raise Unsupported("recursive function without contract: " + self.mod.dem(name))
        self.inlined.add(name)
        return self.exec_func(st, f, args)

    def intrinsic(self, st, name, args, I):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            self.memcpy(st, args[0], args[1], args[2])
            return [(st, ("ret", None))]
        if name.startswith("llvm.memset"):
            if not is_conc(args[2]) or not is_conc(args[1]):
                raise Unsupported("memset symbolic")
            if args[2]:
                b = args[1] & 255
                v = 0
                for _ in range(args[2]):
                    v = (v << 8) | b
                self.store_cell(st, args[0], args[2], v)
            return [(st, ("ret", None))]
        if name.startswith("llvm.eh.typeid.for"):
            return [(st, ("ret", self.typeid(args[0])))]
        if name.startswith("llvm.trap"):
            self.fail(st, "trap reached")
            return []
        if name.startswith("llvm.fmuladd"):
            return [(st, ("ret", self.fbin("fadd", self.fbin("fmul", args[0], args[1]), args[2])))]
        if name.startswith("llvm.fabs"):
            v = args[0]
            if self.fpmode == "real":
                return [(st, ("ret", z3.If(v < 0, -v, v)))]
            return [(st, ("ret", z3.fpAbs(v)))]
        if name.startswith("llvm.floor") or name.startswith("llvm.ceil") or name.startswith("llvm.trunc"):
            v = args[0]
            fl = name.startswith("llvm.floor")
            if self.fpmode == "real":
                if fl:
                    return [(st, ("ret", z3.ToReal(z3.ToInt(v))))]
                return [(st, ("ret", -z3.ToReal(z3.ToInt(-v))))]
            rm = z3.RTN() if fl else (z3.RTP() if name.startswith("llvm.ceil") else z3.RTZ())
            return [(st, ("ret", z3.fpRoundToIntegral(rm, v)))]
        if name.startswith("llvm.is.fpclass") and self.fpmode == "fp" and is_conc(args[1]):
            v, m = args[0], int(args[1])
            neg = z3.fpIsNegative(v)
            cs = [(3, z3.fpIsNaN(v))]
            for bits, f in (((2, 9), z3.fpIsInf(v)), ((3, 8), z3.fpIsNormal(v)), ((4, 7), z3.fpIsSubnormal(v)), ((5, 6), z3.fpIsZero(v))):
                cs += [(1 << bits[0], z3.And(f, neg)), (1 << bits[1], z3.And(f, z3.Not(neg)))]
            if m & 3 in (1, 2):
                raise Unsupported("signalling NaN test")
            return [(st, ("ret", simp(z3.Or([c for b, c in cs if m & b]))))]
        if name.startswith("llvm.is.constant"):
            return [(st, ("ret", is_conc(args[0])))]
        if name.startswith("llvm.expect"):
            return [(st, ("ret", args[0]))]
        if name.startswith("llvm.assume"):
            return [(st, ("ret", None))]
        m = re.match(r"llvm\.(s|u)(add|sub|mul)\.with\.overflow\.i(\d+)", name)
        if m:
            n = int(m.group(3))
            sg = m.group(1) == "s"
            a, b = bv(args[0], n), bv(args[1], n)
            op = m.group(2)
            r = {"add": a + b, "sub": a - b, "mul": a * b}[op]
            if op == "add":
                ok = z3.And(z3.BVAddNoOverflow(a, b, sg), z3.BVAddNoUnderflow(a, b)) if sg else z3.BVAddNoOverflow(a, b, False)
            elif op == "sub":
                ok = z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)) if sg else z3.BVSubNoUnderflow(a, b, False)
            else:
                ok = z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)) if sg else z3.BVMulNoOverflow(a, b, False)
            return [(st, ("ret", (simp(r), simp(z3.Not(ok)))))]
        m = re.match(r"llvm\.(smax|smin|umax|umin)\.i(\d+)", name)
        if m:
            n = int(m.group(2))
            a, b = bv(args[0], n), bv(args[1], n)
            c = {"smax": a > b, "smin": a < b, "umax": z3.UGT(a, b), "umin": z3.ULT(a, b)}[m.group(1)]
            return [(st, ("ret", simp(z3.If(c, a, b))))]
        raise Unsupported("intrinsic " + name)

    # ------------------------------------------------------------ exceptions
    def typeid(self, p):
        if isinstance(p, Ptr) and p.obj is not None:
            return 1000 + p.obj
        raise Unsupported("typeid of %r" % (p,))

    def ti_name(self, p):
        if isinstance(p, Ptr) and p.obj is not None:
            return self.objs[p.obj].name[1:]
        return None

    STDEXC = {"_ZTISt13runtime_error": ["_ZTISt9exception"], "_ZTISt11logic_error": ["_ZTISt9exception"],
              "_ZTISt12out_of_range": ["_ZTISt11logic_error"], "_ZTISt9bad_alloc": ["_ZTISt9exception"],
              "_ZTISt12length_error": ["_ZTISt11logic_error"], "_ZTISt16invalid_argument": ["_ZTISt11logic_error"],
              "_ZTISt8bad_cast": ["_ZTISt9exception"]}

    def ti_bases(self, n):
        """typeinfo hierarchy read from the emitted typeinfo objects"""
        out = [n]
        g = self.mod.globals.get(n)
        if n in self.STDEXC:
            for b in self.STDEXC[n]:
                out += self.ti_bases(b)
            return out
        if g and g[1] is not None and g[1].k == "agg" and len(g[1].args) >= 3:
            for a in g[1].args[2:]:
                if a.k == "global" and a.v.startswith("_ZTI"):
                    out += self.ti_bases(a.v)
        return out

    def make_exc(self, st, tiname, payload=None):
        p = self.alloc(st, "exc:" + tiname, None, "exc")
        st.g[("exc", p.obj)] = tiname
        return p

    # ------------------------------------------------------------ execution
    def ev(self, regs, op):
        if op.k == "local":
            try:
                return regs[op.v]
            except KeyError:
                raise Unsupported("undefined register %" + op.v)
        if op.k in ("int",):
            return bool(op.v) if op.ty.n == 1 else op.v
        return self.const(op)

    def exec_func(self, st, f, args):
        f.body()
        regs = {}
        if len(args) < len(f.params):
            raise Unsupported("arity of " + f.name)
        for (pn, _, at), a in zip(f.params, args):
            if "byval" in at:
                q = self.alloc(st, "byval:" + pn, size_of(at["byval"]), "alloca")
                self.memcpy(st, q, a, size_of(at["byval"]))
                a = q
            regs[pn] = a
        n0 = self.nobj
        pre = self.canon[0](st) if self.canon and f.ret.k == "i" and f.ret.n == 32 else None
        self.stack.append(f.name)
        try:
            outs = self.run(f, [(st, regs, f.order[0], None, 0, ())], None)
        finally:
            self.stack.pop()
        if self.merge and self.stack:
            for s, o in outs:
                self.drop_frame(s, n0)
            if len(outs) > 1:
                outs = self.merge_outs(outs, f.ret.n if f.ret.k == "i" else None)
        if pre is not None:
            outs = [self.canon[1](pre, s, o) for s, o in outs]
        return outs

    def drop_frame(self, s, n0):
        """locals of returned functions are dead"""
        dead = [o for o in s.mem if o > n0 and self.objs[o].kind == "alloca"]
        if not dead:
            return
        for o in dead:
            del s.mem[o]
            s.own.discard(o)
        dead = set(dead)
        for k in [k for k in s.g if isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], int) and k[1] in dead and k[0] != "pcl"]:
            del s.g[k]

    # ------------------------------------------------------------ state merging at control-flow joins
    def flow(self, f):
        """(rpo index, enclosing loop headers, registers live after the phis) of every block"""
        r = self._order.get(f.name)
        if r is not None:
            return r
        seen, post = set(), []
        stack = [(f.order[0], iter(f.succs(f.order[0])))]
        seen.add(f.order[0])
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(f.succs(s))))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = {b: i for i, b in enumerate(reversed(post))}
        loops = f.loops()
        nest = {b: tuple(sorted((h for h in loops if b in loops[h]), key=lambda h: rpo[h])) for b in rpo}
        use, dfn, phiuse = {}, {}, {}
        for b in rpo:
            u, d = set(), set()
            for I in f.blocks[b].ins:
                if I.op == "phi":
                    d.add(I.res)
                    for v, pb in I.x:
                        ops_locals(v, phiuse.setdefault(pb, set()))
                    continue
                us = ins_uses(I)
                u |= us - d
                if I.res is not None:
                    d.add(I.res)
            use[b], dfn[b] = u, d
        livein = {b: set(use[b]) for b in rpo}
        ch = True
        while ch:
            ch = False
            for b in post:
                o = set(phiuse.get(b, ()))
                for s in f.succs(b):
                    o |= livein[s]
                n = use[b] | (o - dfn[b])
                if n != livein[b]:
                    livein[b] = n
                    ch = True
        liveout = {}
        for b in rpo:
            o = set(phiuse.get(b, ()))
            for s in f.succs(b):
                o |= livein[s]
            liveout[b] = o
        r = (rpo, nest, liveout)
        self._order[f.name] = r
        return r

    def live_at(self, f, bn, idx):
        k = (f.name, bn, idx)
        r = self._order.get(k)
        if r is None:
            live = set(self.flow(f)[2][bn])
            for I in reversed(f.blocks[bn].ins[idx:]):
                if I.res is not None:
                    live.discard(I.res)
                live |= ins_uses(I)
            if any(I.op == "landingpad" for I in f.blocks[bn].ins[idx:]):
                live.add("$lpad")
            r = self._order[k] = live
        return r

    def pick(self, f, work):
        """move the work item that comes first in control flow to the end, merged with the others at the same point"""
        rpo, nest, _ = self.flow(f)

        def key(w):
            lc = dict(w[5])
            k = []
            for h in nest[w[2]]:
                k += [rpo[h], lc.get(h, 0)]
            return tuple(k) + (rpo[w[2]], w[4])
        ks = [key(w) for w in work]
        m = min(ks)
        same_pt = [i for i, k in enumerate(ks) if k == m]
        items = [work[i] for i in same_pt]
        for i in reversed(same_pt):
            del work[i]
        if len(items) > 1:
            norm = []
            for st, regs, bn, prev, idx, lc in items:
                ins = f.blocks[bn].ins
                if idx == 0 and ins[0].op == "phi":
                    newv = {}
                    while ins[idx].op == "phi":
                        for v, b in ins[idx].x:
                            if b == prev:
                                newv[ins[idx].res] = self.ev(regs, v)
                        idx += 1
                    regs = dict(regs)
                    regs.update(newv)
                norm.append((st, regs, bn, None, idx, lc))
            out = []
            for w in norm:
                for i, v in enumerate(out):
                    if v[5] != w[5] or v[4] != w[4]:
                        continue
                    r = self.merge2(f, v, w)
                    if r is not None:
                        out[i] = r
                        break
                else:
                    out.append(w)
            items = out
        work.extend(items)

    def merge2(self, f, a, b):
        live = self.live_at(f, a[2], a[4])
        ra, rb = a[1], b[1]
        diff = []
        regs = {}
        for k in live:
            if (k in ra) != (k in rb):
                return None
            if k not in ra:
                continue
            if same(ra[k], rb[k]):
                regs[k] = ra[k]
            else:
                diff.append(k)
        if len(diff) > 4:
            return None
        r = self.merge_states(a[0], b[0], [(ra[k], rb[k]) for k in diff])
        if r is None:
            return None
        st, vals = r
        for k, v in zip(diff, vals):
            regs[k] = v
        return (st, regs, a[2], None, a[4], a[5])

    def merge_outs(self, outs, bits=None):
        res = []
        for s, o in outs:
            if o[0] != "ret":
                res.append((s, o))
                continue
            for i, (t, p) in enumerate(res):
                if p[0] != "ret":
                    continue
                if same(p[1], o[1]):
                    r = self.merge_states(t, s, [])
                    if r is not None:
                        res[i] = (r[0], p)
                        break
                else:
                    r = self.merge_states(t, s, [(p[1], o[1])], bits)
                    if r is not None:
                        res[i] = (r[0], ("ret", r[1][0]))
                        break
            else:
                res.append((s, o))
        return res

    def ite(self, sel, x, y, bits=None):
        """merged value or None"""
        if same(x, y):
            return x
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if isinstance(x, (Ptr, Abs, Fn)) or isinstance(y, (Ptr, Abs, Fn)) or x is None or y is None:
            return None
        if isinstance(x, tuple) or isinstance(y, tuple):
            return None
        bx = isinstance(x, bool) or (z3.is_expr(x) and z3.is_bool(x))
        by = isinstance(y, bool) or (z3.is_expr(y) and z3.is_bool(y))
        if bx and by:
            return simp(z3.If(sel, toB(x), toB(y)))
        if z3.is_expr(x) and z3.is_expr(y):
            if x.sort() != y.sort():
                return None
            return z3.simplify(z3.If(sel, x, y))
        if z3.is_expr(x) and z3.is_bv(x) and isinstance(y, int):
            return simp(z3.If(sel, x, bv(y, x.size())))
        if z3.is_expr(y) and z3.is_bv(y) and isinstance(x, int):
            return simp(z3.If(sel, bv(x, y.size()), y))
        if isinstance(x, int) and isinstance(y, int) and bits:
            return simp(z3.If(sel, z3.BitVecVal(x, bits), z3.BitVecVal(y, bits)))
        return None

    def same_exc(self, a, b, x, y):
        """two in-flight exceptions of one type (their texts are not distinguished)"""
        if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
            return all(same(p, q) or self.same_exc(a, b, p, q) for p, q in zip(x, y))
        return (isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj is not None and y.obj is not None and self.objs[x.obj].kind == "exc" and
                self.objs[y.obj].kind == "exc" and a.g.get(("exc", x.obj)) is not None and a.g.get(("exc", x.obj)) == b.g.get(("exc", y.obj)))

    def merge_states(self, a, b, pairs, bits=None):
        if a.freed != b.freed or a.infeasible or b.infeasible:
            return None
        n = 0
        while n < len(a.pc) and n < len(b.pc) and a.pc[n].get_id() == b.pc[n].get_id():
            n += 1
        ta, tb = a.pc[n:], b.pc[n:]
        if len(ta) > 40 or len(tb) > 40:
            return None
        sel = z3.And(ta) if len(ta) != 1 else ta[0]
        selb = z3.And(tb) if len(tb) != 1 else tb[0]
        newg, newmem = {}, {}
        nd = 0
        for k in set(a.g) | set(b.g):
            ina, inb = k in a.g, k in b.g
            if isinstance(k, tuple) and k[0] == "pcl":
                continue
            if ina and inb:
                x, y = a.g[k], b.g[k]
                if same(x, y):
                    newg[k] = x
                    continue
                if isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool):
                    return None
                if isinstance(k, tuple) and k[0] in self.ghost_keep:
                    return None
                v = self.ite(sel, x, y)
                if v is None:
                    if isinstance(k, tuple) and k[0] in self.ghost_droppable and (x is None or y is None):
                        newg[k] = None
                        continue
                    return None
                nd += 1
                newg[k] = v
            else:
                s, o = (a, b) if ina else (b, a)
                if isinstance(k, tuple) and k[0] in self.ghost_keep:
                    return None
                if isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], int) and k[1] not in o.mem:
                    newg[k] = s.g[k]
                elif isinstance(k, tuple) and len(k) > 1 and k[0] in ("str",) and self.objs[k[1]].kind == "alloca":
                    continue        # a local string constructed on one side only is dead or used before construction
                else:
                    return None
        for o in set(a.mem) | set(b.mem):
            ca, cb = a.mem.get(o), b.mem.get(o)
            if ca is None or cb is None:
                if ca is None and o in self.gmem or cb is None and o in self.gmem:
                    return None
                newmem[o] = ca if ca is not None else cb
                continue
            if ca is cb:
                newmem[o] = ca
                continue
            info = self.objs[o]
            cells = {}
            for off in set(ca) | set(cb):
                x, y = ca.get(off), cb.get(off)
                if x is None or y is None:
                    if info.lazy or info.kind != "alloca":
                        return None
                    z = x or y
                    w = cb if x is not None else ca
                    if any(q < off + z[0] and off < q + m[0] for q, m in w.items()):
                        return None
                    cells[off] = (z[0], UNDEF)
                    continue
                if x[0] != y[0]:
                    return None
                if same(x[1], y[1]):
                    cells[off] = x
                    continue
                if info.kind in self.keep_kinds and x[0] == 4:
                    return None
                v = x[1] if self.same_exc(a, b, x[1], y[1]) else self.ite(sel, x[1], y[1], 8 * x[0])
                if v is None:
                    if info.kind == "alloca" and info.name in ("%exn.slot", "%ehselector.slot"):
                        v = UNDEF
                    else:
                        return None
                nd += 1
                cells[off] = (x[0], v)
            newmem[o] = cells
        vals = []
        for x, y in pairs:
            v = x if self.same_exc(a, b, x, y) else self.ite(sel, x, y, bits)
            if v is None:
                return None
            vals.append(v)
        if nd + len(vals) > 12:
            return None
        st = State()
        st.pc = list(a.pc[:n])
        j = simp(z3.Or(sel, selb))
        if j is not True:
            st.pc.append(toB(j))
        st.mem, st.g, st.freed, st.trace = newmem, newg, a.freed, a.trace
        a.own, b.own = set(), set()
        self.nmerged += 1
        return st, vals

    def run(self, f, work, region):
        """work: list of (st, regs, block, prev, idx, loopcounts). region: None or _Region."""
        outs = []
        work = list(work)
        while work:
            if self.merge and len(work) > 1:
                self.pick(f, work)
            st, regs, bn, prev, idx, lc = work.pop()
            if st.infeasible:
                continue
            blk = f.blocks[bn]
            ins = blk.ins
            if idx == 0:
                # phis
                newv = {}
                while idx < len(ins) and ins[idx].op == "phi":
                    I = ins[idx]
                    for v, b in I.x:
                        if b == prev:
                            newv[I.res] = self.ev(regs, v)
                            break
                    else:
                        if prev is not None:
                            raise Unsupported("phi without predecessor")
                    idx += 1
                if newv:
                    regs.update(newv)
            n = len(ins)
            alive = True
            while idx < n:
                I = ins[idx]
                op = I.op
                if I.line:
                    self.curline = I.line
                    if not st.trace or st.trace[-1] != I.line:
                        st.trace = st.trace[-60:] + (I.line,)
                if op == "alloca":
                    regs[I.res] = self.alloc(st, "%" + I.res, size_of(I.ty), "alloca", ty=I.ty)
                elif op == "load":
                    regs[I.res] = self.load(st, self.ev(regs, I.a[0]), I.ty)
                elif op == "store":
                    self.store(st, self.ev(regs, I.a[1]), I.a[0].ty, self.ev(regs, I.a[0]))
                elif op == "getelementptr":
                    regs[I.res] = self.gep(I.ty, self.ev(regs, I.a[0]),
                                           [(a.ty, self.ev(regs, a)) for a in I.a[1:]])
                elif op in ("call", "invoke"):
                    args = [self.ev(regs, a) for a in I.a]
                    cal = I.x["callee"]
                    if cal.k == "global":
                        res = self.call(st, cal.v, args, I)
                    else:
                        fp = self.ev(regs, cal)
                        if isinstance(fp, Fn):
                            res = self.call(st, fp.name, args, I)
                        elif isinstance(fp, Abs) and ("call", fp.kind) in self.abs_cmp:
                            res = self.abs_cmp[("call", fp.kind)](self, st, fp, args, I)
                        else:
                            raise Unsupported("indirect call through %r" % (fp,))
                    first = True
                    alive = False
                    for (s2, o) in res:
                        if s2.infeasible:
                            continue
                        r2 = dict(regs) if len(res) > 1 else regs
                        if o[0] == "ret":
                            if I.res is not None:
                                r2[I.res] = o[1]
                            if op == "call":
                                work.append((s2, r2, bn, prev, idx + 1, lc))
                            else:
                                self.jump(f, s2, r2, bn, I.x["normal"], lc, work, outs, region)
                        else:
                            if op == "call":
                                outs.append((s2, o))
                            else:
                                self.unwind(f, s2, r2, bn, I.x["unwind"], o[1], lc, work, outs, region)
                    break
                elif op == "br":
                    alive = False
                    if len(I.x) == 1:
                        self.jump(f, st, regs, bn, I.x[0], lc, work, outs, region)
                    else:
                        c = self.ev(regs, I.a[0])
                        if c is UNDEF:
                            raise Unsupported("branch on undefined value")
                        c = simp(c)
                        if isinstance(c, (bool, int)):
                            self.jump(f, st, regs, bn, I.x[0] if c else I.x[1], lc, work, outs, region)
                        else:
                            self.fork(f, st, regs, bn, [(c, I.x[0]), (z3.Not(c), I.x[1])], lc, work, outs, region)
                    break
                elif op == "switch":
                    alive = False
                    c = self.ev(regs, I.a[0])
                    if c is UNDEF:
                        raise Unsupported("switch on undefined value")
                    d, cs = I.x
                    w = I.a[0].ty.n
                    if isinstance(c, int):
                        tgt = d
                        for v, l in cs:
                            if v == mask(c, w):
                                tgt = l
                                break
                        self.jump(f, st, regs, bn, tgt, lc, work, outs, region)
                    else:
                        groups = {}
                        for v, l in cs:
                            groups.setdefault(l, []).append(v)
                        alts = []
                        for l, vs in groups.items():
                            if l == d:
                                continue
                            alts.append((z3.Or([c == v for v in vs]) if len(vs) > 1 else c == vs[0], l))
                        alts.append((z3.And([c != v for v, l in cs if l != d] or [z3.BoolVal(True)]), d))
                        self.fork(f, st, regs, bn, alts, lc, work, outs, region)
                    break
                elif op == "ret":
                    alive = False
                    v = self.ev(regs, I.a[0]) if I.a else None
                    outs.append((st, ("ret", v)))
                    self.paths += 1
                    break
                elif op == "unreachable":
                    alive = False
                    self.fail(st, "unreachable code reached")
                    break
                elif op == "resume":
                    alive = False
                    v = self.ev(regs, I.a[0])
                    outs.append((st, ("throw", v[0])))
                    break
                elif op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or",
                            "xor"):
                    a, b = self.ev(regs, I.a[0]), self.ev(regs, I.a[1])
                    self.arith_checks(st, I, a, b)
                    regs[I.res] = self.binop(op, a, b, I.ty.n)
                elif op == "icmp":
                    regs[I.res] = self.icmp(I.x, self.ev(regs, I.a[0]), self.ev(regs, I.a[1]), I.a[0].ty)
                elif op == "fcmp":
                    regs[I.res] = self.fcmp(I.x, self.ev(regs, I.a[0]), self.ev(regs, I.a[1]))
                elif op in ("fadd", "fsub", "fmul", "fdiv"):
                    regs[I.res] = self.fbin(op, self.ev(regs, I.a[0]), self.ev(regs, I.a[1]))
                elif op == "fneg":
                    v = self.ev(regs, I.a[0])
                    regs[I.res] = -v if self.fpmode == "real" else z3.fpNeg(v)
                elif op in ("trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "ptrtoint", "inttoptr",
                            "bitcast", "fpext", "fptrunc"):
                    regs[I.res] = self.cast(st, I, self.ev(regs, I.a[0]))
                elif op == "select":
                    c = simp(self.ev(regs, I.a[0]))
                    a, b = self.ev(regs, I.a[1]), self.ev(regs, I.a[2])
                    if isinstance(c, (bool, int)):
                        regs[I.res] = a if c else b
                    elif same(a, b):
                        regs[I.res] = a
                    elif isinstance(a, (Ptr, Abs, Fn)) or isinstance(b, (Ptr, Abs, Fn)) or a is UNDEF or b is UNDEF:
                        # fork
                        s2 = st.copy()
                        s2.assume(z3.Not(c))
                        st.assume(c)
                        r2 = dict(regs)
                        r2[I.res] = b
                        regs[I.res] = a
                        if self.feasible(s2):
                            work.append((s2, r2, bn, prev, idx + 1, lc))
                        if not self.feasible(st):
                            alive = False
                            break
                    else:
                        if I.ty.k == "i":
                            if I.ty.n == 1:
                                regs[I.res] = simp(z3.If(c, toB(a), toB(b)))
                            else:
                                regs[I.res] = simp(z3.If(c, bv(a, I.ty.n), bv(b, I.ty.n)))
                        else:
                            regs[I.res] = z3.If(c, a, b)
                elif op == "extractvalue":
                    v = self.ev(regs, I.a[0])
                    for i in I.x:
                        v = v[i] if v is not UNDEF else UNDEF
                    regs[I.res] = v
                elif op == "insertvalue":
                    a, b = self.ev(regs, I.a[0]), self.ev(regs, I.a[1])
                    if a is UNDEF:
                        a = tuple([UNDEF] * len(I.ty.el))
                    if len(I.x) != 1:
                        raise Unsupported("nested insertvalue")
                    a = list(a)
                    a[I.x[0]] = b
                    regs[I.res] = tuple(a)
                elif op == "landingpad":
                    regs[I.res] = regs["$lpad"]
                elif op == "phi":
                    raise Unsupported("phi in mid-block")
                else:
                    raise Unsupported("instruction " + op)
                if st.infeasible:
                    alive = False
                    break
                idx += 1
        return outs

    def fork(self, f, st, regs, bn, alts, lc, work, outs, region):
        live = []
        for c, l in alts:
            c = simp(c)
            if c is False:
                continue
            if self.feasible(st, c):
                live.append((c, l))
        for i, (c, l) in enumerate(live):
            last = i == len(live) - 1
            s2 = st if last else st.copy()
            r2 = regs if last else dict(regs)
            if c is not True and not (len(live) == 1):
                s2.assume(c)
            elif c is not True:
                s2.assume(c)
            self.jump(f, s2, r2, bn, l, lc, work, outs, region)

    def unwind(self, f, st, regs, bn, target, exc, lc, work, outs, region):
        lp = [i for i in f.blocks[target].ins if i.op == "landingpad"][0]
        ti = st.g.get(("exc", exc.obj)) if isinstance(exc, Ptr) else None
        bases = self.ti_bases(ti) if ti and ti != "ANY" else []
        states = [(st, regs)]
        cleanup = any(k == "cleanup" for k, _ in lp.x)
        handled = False
        for k, v in lp.x:
            if k == "cleanup":
                continue
            if k == "filter":
                raise Unsupported("exception filter")
            tv = self.const(v)
            if isinstance(tv, Ptr) and tv.obj is None:
                sel = 1
                regs["$lpad"] = (exc, sel)
                self.jump(f, st, regs, bn, target, lc, work, outs, region)
                handled = True
                break
            tn = self.ti_name(tv)
            if ti == "ANY":
                s2 = st.copy()
                r2 = dict(regs)
                s2.g[("exc", exc.obj)] = tn
                r2["$lpad"] = (exc, self.typeid(tv))
                self.jump(f, s2, r2, bn, target, lc, work, outs, region)
                continue
            if tn in bases:
                regs["$lpad"] = (exc, self.typeid(tv))
                self.jump(f, st, regs, bn, target, lc, work, outs, region)
                handled = True
                break
        if handled:
            return
        if cleanup:
            regs["$lpad"] = (exc, 0)
            self.jump(f, st, regs, bn, target, lc, work, outs, region)
        else:
            outs.append((st, ("throw", exc)))

    def jump(self, f, st, regs, frm, to, lc, work, outs, region):
        if region is not None:
            if to == region.header:
                if self.norm and region.base is not None:
                    self.norm(st, region.base)
                region.back.append((st, regs, frm))
                return
            if to not in region.body:
                region.exits.append((st, regs, frm, to))
                return
        loops = f.loops()
        if to in loops:
            body = loops[to]
            if frm in body:
                c = dict(lc)
                c[to] = c.get(to, 0) + 1
                if self.eager and c[to] == 1 and not self.counted(f, to, st):
                    raise NeedInv(f.name, to)
                if c[to] > self.UNROLL and (c[to] > 300 or self.loop_symbolic(f, to, st)):
                    raise NeedInv(f.name, to)
                work.append((st, regs, to, frm, 0, tuple(c.items())))
                return
            if (f.name, to) in self.invloops or self.eager and not self.counted_static(f, to, st, regs):
                self.do_loop(f, st, regs, frm, to, lc, work, outs, region)
                return
            c = dict(lc)
            c[to] = 0
            if self.eager:
                self.loop_snap[(f.name, to)] = dict(st.mem)
                st.own = set()
            work.append((st, regs, to, frm, 0, tuple(c.items())))
            return
        work.append((st, regs, to, frm, 0, lc))

    def counted_static(self, f, header, st, regs):
        """the loop steps a local by a constant from a concrete start"""
        if self.nocounted:
            return False
        steps = {}
        for b in f.loops()[header]:
            for I in f.blocks[b].ins:
                if I.op in ("add", "sub", "getelementptr") and I.a[0].k == "local" and len(I.a) > 1 and I.a[1].k == "int":
                    steps[I.res] = I.a[0].v
        for I in f.blocks[header].ins:
            if I.op != "phi" or not any(v.k == "local" and steps.get(v.v) == I.res for v, b in I.x):
                continue
            for v, b in I.x:
                x = regs.get(v.v) if v.k == "local" else None
                if isinstance(x, Ptr) and is_conc(x.off) and x.obj is not None:
                    self.phi_counted.add((f.name, header))
                    return True
        for b in f.loops()[header]:
            defs = {}
            for I in f.blocks[b].ins:
                if I.op == "load" and I.a[0].k == "local":
                    defs[I.res] = I.a[0].v
                elif I.op in ("add", "sub", "getelementptr") and I.a[0].k == "local" and I.a[0].v in defs and len(I.a) > 1 and I.a[1].k == "int":
                    defs[I.res] = ("step", defs[I.a[0].v])
                elif I.op == "store" and I.a[0].k == "local" and I.a[1].k == "local" and defs.get(I.a[0].v) == ("step", I.a[1].v):
                    p = regs.get(I.a[1].v)
                    if isinstance(p, Ptr) and p.obj in st.mem and is_conc(p.off):
                        v = st.mem[p.obj].get(p.off, (0, UNDEF))[1]
                        if isinstance(v, int) or isinstance(v, Ptr) and is_conc(v.off):
                            return True
        return False

    def counted(self, f, header, st):
        """some local of the loop counts concretely"""
        if self.nocounted:
            return False
        if (f.name, header) in self.phi_counted:
            return True
        old = self.loop_snap.get((f.name, header)) or {}
        for o, cells in st.mem.items():
            c0 = old.get(o)
            if c0 is None or c0 is cells:
                continue
            for off, (n, v) in cells.items():
                w = c0.get(off)
                if w is None or w[0] != n or same(w[1], v):
                    continue
                w = w[1]
                if isinstance(v, int) and isinstance(w, int) and not isinstance(v, bool) and n > 1:
                    return True
                if isinstance(v, Ptr) and isinstance(w, Ptr) and v.obj == w.obj and is_conc(v.off) and is_conc(w.off):
                    return True
        return False

    def loop_symbolic(self, f, header, st):
        """a loop that is still running after UNROLL rounds is cut by an invariant unless its path condition has not
        grown (its exit test is concrete), in which case complete unrolling continues"""
        k = ("pcl", f.name, header)
        n = len(st.pc)
        old = st.g.get(k)
        st.g[k] = n
        if old is None:
            return n > 0 and False
        return n > old

    # ------------------------------------------------------------ loops
    def do_loop(self, f, st, regs, frm, header, lc, work, outs, region):
        body = f.loops()[header]
        if self.norm:
            self.norm(st, None)
        phis = [i for i in f.blocks[header].ins if i.op == "phi"]
        init_phi = {}
        for I in phis:
            for v, b in I.x:
                if b == frm:
                    init_phi[I.res] = self.ev(regs, v)
        obls_mark = len(self.obls)

        def one_pass(M, cands, quiet):
            s1 = st.copy()
            r1 = dict(regs)
            self.apply_havoc(s1, M, st)
            for I in phis:
                r1[I.res] = self.havoc_value(init_phi[I.res], I.res) if ("phi", I.res) in M else init_phi[I.res]
            if cands:
                for nm, fm in cands:
                    f1 = fm(s1)
                    if f1 is not None:
                        s1.assume(toB(f1))
            reg = _Region(header, body)
            reg.base = st
            if quiet:
                self.quiet += 1
            head = s1.copy()
            try:
                o = self.run_from_header(f, s1, r1, header, phis, reg)
            finally:
                if quiet:
                    self.quiet -= 1
            return head, r1, reg, o

        # 1. modified locations
        M = set()
        for _ in range(12):
            head, r1, reg, o = one_pass(M, None, True)
            newM = set(M)
            for s2, r2, b2 in reg.back:
                self.diff(head, s2, newM)
                for I in phis:
                    for v, b in I.x:
                        if b == b2 and not same(self.ev(r2, v), r1[I.res]):
                            newM.add(("phi", I.res))
            if newM == M:
                break
            M = newM
        else:
            raise Unsupported("loop modset did not stabilise in " + f.name)
        # 2. candidate invariants (Houdini)
        cands = []
        if self.inv_pool:
            cands = list(self.inv_pool(self, st, f, header, M) or [])
        cands += self.generic_cands(st, M)
        keep = []
        for nm, fm in cands:
            f0 = fm(st)
            if f0 is None:
                continue
            if self.prove(st, f0, timeout=self.cand_timeout)[0] == "proved":
                keep.append((nm, fm))
        while True:
            head, r1, reg, o = one_pass(M, keep, True)
            bad = set()
            for s2, r2, b2 in reg.back:
                if not self.feasible(s2):
                    continue
                for nm, fm in keep:
                    if nm in bad:
                        continue
                    f2 = fm(s2)
                    if f2 is None or self.prove(s2, f2, timeout=self.cand_timeout)[0] != "proved":
                        bad.add(nm)
            if not bad:
                break
            keep = [c for c in keep if c[0] not in bad]
        # 3. final pass: obligations on
        head, r1, reg, o = one_pass(M, keep, False)
        self.loop_info.append((f.name, header, [k for k, _ in keep], len(M)))
        if not self.quiet:
            t = time.time()
            for nm, _ in keep:
                self.obls.append(Obl(name="loop invariant: " + nm, ok=True, status="proved", line=self.curline,
                                     fn=f.name, t=0.0, backend="z3"))
            # termination: some measure decreases on every back edge
            if self.auto_term:
                self.check_term(f, header, head, reg, M, st)
        for s2, r2, f2, to in reg.exits:
            self.jump(f, s2, r2, f2, to, lc, work, outs, region)
        outs.extend(o)

    def check_term(self, f, header, head, reg, M, st):
        backs = [b for b in reg.back if self.feasible(b[0])]
        if not backs:
            return
        meas = []
        if self.measures:
            meas += self.measures(self, head)
        for loc in M:
            if loc[0] == "cell":
                _, o, off, sz = loc
                v = self.get_cells(head, o).get(off, (0, None))[1]
                if z3.is_bv(v):
                    meas.append(("cell", lambda s, o=o, off=off: self.get_cells(s, o).get(off, (0, None))[1]))
                    meas.append(("-cell", lambda s, o=o, off=off: (lambda x: ~bv(x, 8 * sz) if x is not None else None)(
                        self.get_cells(s, o).get(off, (0, None))[1])))
                if isinstance(v, Ptr) and not is_conc(v.off):
                    def mp(s, o=o, off=off):
                        x = self.get_cells(s, o).get(off, (0, None))[1]
                        info = self.objs[x.obj]
                        return (z3.BitVecVal(info.size or 0, 64) if info.size else z3.BitVecVal(-1, 64)) - bv(x.off, 64)
                    meas.append(("ptr", mp))
        for nm, m in meas:
            ok = True
            for s2, _, _ in backs:
                a, b = m(head), m(s2)
                if a is None or b is None or not (z3.is_expr(a) or z3.is_expr(b)):
                    ok = False
                    break
                if z3.is_int(a) or z3.is_int(b):
                    g = z3.And(b < a, b >= 0)
                else:
                    n = a.size() if z3.is_expr(a) else b.size()
                    if z3.is_expr(a) and z3.is_expr(b) and a.size() != b.size():
                        ok = False
                        break
                    g = z3.ULT(bv(b, n), bv(a, n))
                if self.prove(s2, g)[0] != "proved":
                    ok = False
                    break
            if ok:
                self.obls.append(Obl(name="loop terminates (measure %s)" % nm, ok=True, status="proved",
                                     line=self.curline, fn=f.name, t=0.0, backend="z3"))
                return
        self.obls.append(Obl(name="loop terminates", ok=False, status="failed", line=self.curline, fn=f.name, t=0.0,
                             backend="z3", trace=()))

    def generic_cands(self, st, M):
        out = []
        for loc in sorted(M, key=repr):
            if loc[0] == "cell":
                _, o, off, sz = loc
                v0 = self.get_cells(st, o).get(off, (0, None))[1]
                if isinstance(v0, Ptr) and is_conc(v0.off) and v0.obj is not None:
                    info = self.objs[v0.obj]
                    if info.size is not None:
                        def c(s, o=o, off=off, sz=info.size):
                            x = self.get_cells(s, o).get(off, (0, None))[1]
                            if not isinstance(x, Ptr):
                                return None
                            return z3.ULE(bv(x.off, 64), sz)
                        out.append(("ptr-in-object %d+%d" % (o, off), c))
        return out

    def run_from_header(self, f, s1, r1, header, phis, reg):
        # execute the header block with phis already valued
        idx = len(phis)
        return self.run(f, [(s1, r1, header, "$hdr", idx, ())], reg) if idx else \
            self.run_noph(f, s1, r1, header, reg)

    def run_noph(self, f, s1, r1, header, reg):
        return self.run(f, [(s1, r1, header, None, 0, ())], reg)

    def diff(self, a, b, M):
        for o, cb in b.mem.items():
            ca = a.mem.get(o)
            if ca is None:
                if o in self.gmem:
                    ca = self.gmem[o]
                elif o in self.objs and o <= a.g.get("$maxobj", 10**9) and o in a.mem:
                    ca = {}
                else:
                    continue
            if ca is cb:
                continue
            for off, (n, v) in cb.items():
                w = ca.get(off)
                if w is None or w[0] != n or not same(w[1], v):
                    M.add(("cell", o, off, n))
        for k, v in b.g.items():
            if isinstance(k, tuple) and k and k[0] in ("pcl", "exc"):
                continue
            if k not in a.g:
                M.add(("ghost", k)) if k in self.ghost_havoc else None
                continue
            if not same(a.g[k], v):
                M.add(("ghost", k))

    def havoc_value(self, v, name):
        if isinstance(v, bool):
            return self.fresh(name, "bool")
        if z3.is_expr(v):
            return self.fresh(name, v.sort())
        if isinstance(v, Ptr):
            if v.obj is None:
                return UNDEF
            return Ptr(v.obj, self.fresh(name + ".off", 64))
        if isinstance(v, Abs):
            h = self.abs_havoc.get(v.kind)
            if h:
                return h(self, v, name)
            return UNDEF
        if v is UNDEF:
            return UNDEF
        raise Unsupported("havoc of %r" % (v,))

    def apply_havoc(self, s, M, st0):
        for loc in sorted(M, key=repr):
            if loc[0] == "cell":
                _, o, off, n = loc
                w = self.get_cells(st0, o).get(off)
                if w is None or w[0] != n:
                    # cell did not exist before the loop: body writes before reading it, else UNDEF surfaces
                    v = UNDEF
                    if o not in s.mem:
                        continue
                    # overlapping covering cell (e.g. memset)? split by store
                    self.store_cell(s, Ptr(o, off), n, v)
                    continue
                v = w[1]
                if isinstance(v, int):
                    nv = self.fresh("%s+%d" % (self.objs[o].name, off), 8 * n)
                elif z3.is_bool(v):
                    nv = self.fresh("%s+%d" % (self.objs[o].name, off), "bool")
                else:
                    nv = self.havoc_value(v, "%s+%d" % (self.objs[o].name, off))
                if o not in s.mem and o in self.gmem:
                    s.mem[o] = dict(self.gmem[o])
                s.wcells(o)[off] = (n, nv)
            elif loc[0] == "ghost":
                k = loc[1]
                h = self.ghost_havoc.get(k) or (self.ghost_havoc.get(k[0]) if isinstance(k, tuple) else None)
                v = s.g.get(k)
                if h:
                    s.g[k] = h(self, v, k)
                elif isinstance(v, bool):
                    s.g[k] = self.fresh(str(k), "bool")
                elif isinstance(v, int):
                    s.g[k] = self.fresh(str(k), "int")
                elif isinstance(v, tuple):
                    s.g[k] = tuple(self.havoc_value(x, str(k)) if not isinstance(x, int) or isinstance(x, bool)
                                   else self.fresh(str(k), "int") for x in v)
                else:
                    s.g[k] = self.havoc_value(v, str(k))


class _Region:
    base = None

    def __init__(self, header, body):
        self.header, self.body = header, body
        self.back, self.exits = [], []


def ops_locals(op, out):
    if op is None or isinstance(op, (str, int, tuple)):
        return
    if op.k == "local":
        out.add(op.v)
    for a in op.args or []:
        if hasattr(a, "k"):
            ops_locals(a, out)


_uses = {}


def ins_uses(I):
    k = id(I)
    r = _uses.get(k)
    if r is None:
        out = set()
        for a in I.a:
            ops_locals(a, out)
        if isinstance(I.x, dict):
            for v in I.x.values():
                if hasattr(v, "k"):
                    ops_locals(v, out)
        r = _uses[k] = (I, out)
    return r[1]
