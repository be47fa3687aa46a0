"""Symbolic initial states shared by the contracts: streams over abstract sources and sinks."""
import re
import z3
from llir import Unsupported, PTR, IntTy, size_of
from sym import Executor, State, Theory, Ptr, NULL, Fn, Abs, UNDEF, simp, toB, bv
import stdlib
from stdlib import (TXT, EMPTY, PUT, PUTN, CATT, LEN, vtable_for, ios_init, src_kind, snk_kind, BV64, CHARW)
from vc import Contract, Case, ANY


def new_executor(mod, name="", **kw):
    ex = Executor(mod, name=name, **kw)
    stdlib.register(ex)
    ex.src, ex.snk = {}, {}
    ex.abs_cmp[("sbuf", "SRC")] = src_kind
    ex.abs_cmp[("sbuf", "SNK")] = snk_kind
    return ex


def find(mod, rx, one=True):
    """defined functions whose demangled name matches"""
    c = re.compile(rx)
    out = [n for n, f in mod.funcs.items() if f.defined and c.search(mod.dem(n))]
    if one:
        if not out:
            raise Unsupported("no function matches %s" % rx)
        return out[0]
    return out


def mk_source(ex, st, ct, tag="src", unit_ok=None):
    """an arbitrary input buffer: units U(0..LEN-1); -> (Ptr, U, LEN, pos)"""
    o = ex.alloc(st, tag, None, "sbuf", lazy=True)
    w = CHARW[ct]
    U = z3.Function("U_" + tag, BV64, z3.BitVecSort(w))
    n = z3.BitVec("LEN_" + tag, 64)
    pos = z3.BitVec("pos_" + tag, 64)
    ex.src[o.obj] = (U, n, ct)
    st.g[("sbufkind", o.obj, 0)] = "SRC"
    st.g[("src", o.obj)] = pos
    st.assume(z3.ULE(pos, n))
    st.assume(z3.ULT(n, z3.BitVecVal(1 << 62, 64)))
    return o, U, n, pos


def mk_sink(ex, st, ct, tag="snk"):
    o = ex.alloc(st, tag, None, "sbuf", lazy=True)
    T = z3.Const("T_" + tag, TXT)
    ex.snk[o.obj] = ct
    st.g[("sbufkind", o.obj, 0)] = "SNK"
    st.g[("snk", o.obj)] = T
    return o, T


def mk_istream(ex, st, ct, sb, tag="is"):
    p = ex.alloc(st, tag, 280, "stream", lazy=True)
    ex.store(st, p, PTR, vtable_for(ex, 16))
    q = Ptr(p.obj, 16)
    ios_init(ex, st, q, sb, ct)
    return p, q


def mk_ostream(ex, st, ct, sb, tag="os"):
    p = ex.alloc(st, tag, 272, "stream", lazy=True)
    ex.store(st, p, PTR, vtable_for(ex, 8))
    q = Ptr(p.obj, 8)
    ios_init(ex, st, q, sb, ct)
    return p, q


def iosk(q, f):
    return ("ios", q.obj, q.off, f)


def puts(t, units):
    for u in units:
        t = PUT(t, u if z3.is_expr(u) else z3.BitVecVal(u, 32))
    return t
