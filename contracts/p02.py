"""CFL time steps of the mesh tool (tools/edge_v/src/time/Cfl.cpp)."""
from fractions import Fraction as Fr
from vp.unit import Unit, S, A
from vp import terms as t
from vp.terms import implies, band, bor, ite, eq, forall, bnot
from contracts.p01 import modarrs, NMAX

NV = {0: 2, 1: 3, 2: 4, 3: 4, 4: 8}
NAME = ['line', 'tria3', 'quad4r', 'tet4', 'hex8r']


def unit(ty, byEl):
    nv = NV[ty]

    def speed(c, e):
        if byEl:
            return c.i.sp[e]
        return t.total([c.i.sp[c.i.elVe[e * nv + k]] for k in range(nv)]) / nv

    def dt(c, e):
        return c.i.inDia[e] / speed(c, e)

    def req(c):
        n = c.i.nEls if byEl else c.i.nVes
        r = [c.i.nEls > 0, forall([(0, n)], lambda k: c.i.sp[k] > 0), forall([(0, c.i.nEls)], lambda e: c.i.inDia[e] > 0),
             forall([(0, c.i.nEls)], lambda e: dt(c, e) <= 10 ** 300)]
        if not byEl:
            r.append(forall([(0, c.i.nEls), (0, nv)], lambda e, k: c.i.elVe[e * nv + k] < c.i.nVes))
        return r

    def ens(c):
        E = (0, c.i.nEls)
        return [('absolute minimum is positive', c.o.min[0] > 0),
                ('relative time step times the minimum is diameter over (mean) wave speed', forall([E], lambda e: eq(c.o.ts[e] * c.o.min[0], dt(c, e)))),
                ('absolute minimum is a lower bound', forall([E], lambda e: c.o.min[0] <= dt(c, e))),
                ('absolute minimum is attained', bnot(forall([E], lambda e: c.o.min[0] < dt(c, e)))),
                ('relative time steps are at least one', forall([E], lambda e: c.o.ts[e] >= 1))]

    def cands(c, lc):
        for rid, reg in modarrs(lc, 'R'):
            for q in lc.ivs():
                yield ('abs', lambda v, q=q: forall([(0, v.phi(q.d))], lambda e: eq(v.arr(rid)[e], dt(c, e))))
                yield ('absR', lambda v, q=q: forall([(v.phi(q.d), c.i.nEls)], lambda e: eq(v.arr(rid)[e], dt(c, e))))
                for m in c.ex.rids.values():
                    pass
                for key, val in cells(lc):
                    yield ('rel', lambda v, q=q, val=val: forall([(0, v.phi(q.d))], lambda e: eq(v.arr(rid)[e] * val(v), dt(c, e))))
                    yield ('ge1', lambda v, q=q, val=val: forall([(0, v.phi(q.d))], lambda e: v.arr(rid)[e] >= 1))
                for rid2, reg2 in list(lc.st0.mem.items()):
                    if reg2.kind == 'arr' and rid2 != rid and reg2.fields[0][1] == 'R' and rid2 not in (c.ex.rids['inDia'], c.ex.rids['sp']):
                        yield ('copy', lambda v, q=q, rid2=rid2: forall([(0, v.phi(q.d))], lambda e: eq(v.arr(rid)[e], v.arr(rid2)[e])))
        for q in lc.ivs():
            for key, get in lc.reals():
                yield ('lb', lambda v, q=q, get=get: forall([(0, v.phi(q.d))], lambda e: get(v) <= dt(c, e)))
                yield ('att', lambda v, q=q, get=get: bor(eq(v.phi(q.d), 0), bnot(forall([(0, v.phi(q.d))], lambda e: get(v) < dt(c, e)))))
                yield ('att0', lambda v, q=q, get=get: implies(eq(v.phi(q.d), 0), get(v) > 10 ** 300))
                yield ('pos', lambda v, get=get: get(v) > 0)

    def cells(lc):
        for rid, reg in lc.st0.mem.items():
            if reg.kind == 'arr' or rid in lc.modified:
                continue
            for off, (x, sz) in reg.cells.items():
                if t.is_t(x) and x.s == 'R':
                    yield (rid, off), (lambda v, x=x: x)

    def sample(rng):
        n, m = rng.randint(1, 6), rng.randint(1, 6)
        return dict(nVes=m, nEls=n, elVe=[rng.randrange(m) for _ in range(n * nv)], inDia=[rng.uniform(.1, 4) for _ in range(n)],
                    sp=[rng.uniform(.1, 5) for _ in range(n if byEl else m)])
    return Unit(f'timeSteps_{NAME[ty]}_{"el" if byEl else "ve"}', 'cfl.cpp', 'w_cfl',
                [S('ty', 'i32', val=ty), S('nVes', 'u64', 0, NMAX), S('nEls', 'u64', 0, NMAX), A('elVe', 'u64', lambda c: c.i.nEls * nv),
                 A('inDia', 'f64', lambda c: c.i.nEls), S('velModEl', 'bool', val=int(byEl)), A('sp', 'f64', (lambda c: c.i.nEls) if byEl else (lambda c: c.i.nVes)),
                 A('min', 'f64', 1, 'out'), A('ts', 'f64', lambda c: c.i.nEls, 'out')], ens, req, cfg=dict(tool='edge_v'), inv=True, cands=cands, sample=sample,
                opts=dict(inv_timeout_c=6000))


def units():
    return [unit(k, False) for k in range(5)] + [unit(3, True)]
