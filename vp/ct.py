"""helpers for contracts on callees: reading and writing the caller's memory through pointer arguments"""
from . import exec as X
from . import terms as t
from .exec import Ptr, PIte, ty_f64


def at(p, k, sz=8):
    if isinstance(p, PIte):
        return PIte(p.c, at(p.a, k, sz), at(p.b, k, sz))
    return Ptr(p.r, t.iadd(p.o, k * sz))


def rd(ex, st, p, k=0):
    return ex.load(st, at(p, k), ty_f64)


def wr(ex, st, p, k, v):
    ex.store_(st, at(p, k), v, ty_f64)


def view(ex, st, p, ty=None):
    """the homogeneous array a pointer argument refers to (from its first element on)"""
    reg = st.mem[p.r]
    if reg.kind == 'lazy' and ty:
        ex.settle(reg, ty)
    if reg.kind != 'arr' or t.is_t(p.o) or p.o != 0:
        raise X.Unsupported('contract: pointer to the start of an array expected')
    a, kind, lo, hi, es = reg.fields[0]
    return t.Arr(a, reg.n, lo, hi)


def havoc(ex, st, p, ty=None):
    """the callee may assign every element of the array"""
    if st.mem[p.r].kind == 'lazy' and ty:
        ex.settle(st.mem[p.r], ty)
    reg = st.wr(p.r)
    if ex.wlog is not None:
        ex.wlog.add((p.r, None, 1, 'i', 8))
    a, kind, lo, hi, es = reg.fields[0]
    na = t.avar(t.fresh_name(reg.name), kind)
    reg.fields[0] = (na, kind, lo, hi, es)
    return t.Arr(na, reg.n, lo, hi)
