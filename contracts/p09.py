"""Kinematic point sources: integration of time series (linalg/Series.hpp)."""
from fractions import Fraction as Fr
from vp.unit import Unit, S, A
from vp import terms as t
from vp.terms import implies, band, bor, ite, eq, bnot, forall, app
from .p01 import modarrs

CFG = dict(EL='TET4', EQ='SEISMIC', ORDER=2, PRECISION=64)
NMAX = 1 << 40
TOL = Fr(0.000000001)

ASSUMPTIONS = ['Intervals of the series fit into the integer type (conversion of non-negative reals to integers truncates).']


def prim(k, s):
    """ghost: integral over the first k intervals of series s"""
    return app(f'I{s}', (k,), 'R')


def series(ns):
    def req(c):
        i = c.i
        end = i.xs + t.toreal(i.n - 1) * i.dx
        r = [i.dx > 0, i.x1 <= i.x2]
        for x, k in ((i.x1, i.k1), (i.x2, i.k2)):
            q = (x - i.xs) / i.dx
            # interval of the bound
            r.append(implies(band(i.xs <= x, x <= end), band(t.rle(t.toreal(k), q), t.rlt(q, t.toreal(k + 1)), k <= i.n - 1)))
            r.append(implies(bnot(i.xs <= x), eq(k, 0)))
            # tolerance zones next to the ends
            r += [bor(x <= end, x >= end + TOL), bor(x >= i.xs, x <= i.xs - TOL)]
        return r

    def lemmas(c):
        i = c.i
        n1 = t.toreal(i.n - 1)
        end = i.xs + n1 * i.dx
        r = []
        for nm, x in (('start', i.x1), ('end', i.x2)):
            q = (x - i.xs) / i.dx
            r += [(nm + ': relative position, before', t.iff(x < i.xs, q < 0)), (nm + ': relative position, after', t.iff(x > end, q > n1)),
                  (nm + ': relative position, at the end', t.iff(eq(x, end), eq(q, n1)))]
        r.append(('order', (i.x1 - i.xs) / i.dx <= (i.x2 - i.xs) / i.dx))
        return r

    def ax(c):
        i = c.i
        r = []
        for s in range(ns):
            r += [eq(prim(0, s), Fr(0)),
                  forall([(0, i.n - 1)], lambda k, s=s: eq(prim(k + 1, s), prim(k, s) + i.dx * (i.v[k * ns + s] + i.v[(k + 1) * ns + s]) / 2))]
        return r

    def ens(c):
        i = c.i
        end = i.xs + t.toreal(i.n - 1) * i.dx

        def regions(x, k, s, left):
            d = x - i.xs - t.toreal(k) * i.dx
            v = lambda j: i.v[j * ns + s]
            yield 'before', x < i.xs, i.na * (x - i.xs)
            yield 'after', x > end, prim(i.n - 1, s) + i.na * (x - end)
            yield 'at the end', eq(x, end), prim(i.n - 1, s)
            # primitive, anchored at the next point (start) or the previous point (end)
            e = i.dx - d
            y = prim(k + 1, s) - (v(k + 1) * e - e * e / (2 * i.dx) * (v(k + 1) - v(k))) if left else prim(k, s) + v(k) * d + d * d / (2 * i.dx) * (v(k + 1) - v(k))
            yield 'in', band(x >= i.xs, x < end), y
        e = [('intervals of the bounds are ordered', implies(band(i.xs <= i.x1, i.x2 <= end), i.k1 <= i.k2))]
        for s in range(ns):
            for n1, c1, p1 in regions(i.x1, i.k1, s, True):
                for n2, c2, p2 in regions(i.x2, i.k2, s, False):
                    for n3, c3 in ((', same interval', eq(i.k1, i.k2)), (', different intervals', i.k1 < i.k2)) if n1 == n2 == 'in' else (('', True),):
                        e.append((f'series {s}: integral of the piecewise linear function, start {n1}, end {n2} the series{n3}',
                                  implies(band(c1, c2, c3), eq(c.o.o[s], p2 - p1))))
        return e

    def cands(c, lc):
        for q in lc.ivs():
            for (rid, off), val in [x for x in lc.reals() if isinstance(x[0], tuple)]:
                o0 = lc.st0.mem[rid].cells[off][0]
                for s in range(ns):
                    for sg in (1, -1):
                        yield ('sum', lambda v, q=q, val=val, o0=o0, s=s, sg=sg: eq(val(v), o0 + sg * (prim(v.phi(q.d) - 1, s) - prim(lc.init[q.d] - 1, s))))

    def sample(rng):
        n = rng.randint(1, 5)
        dx = rng.choice([.1, .5, 1.])
        xs = rng.uniform(-1, 1)
        end = xs + (n - 1) * dx
        a = sorted(rng.uniform(xs - .5 * dx, end + .5 * dx) for _ in range(2))
        if rng.random() < .5:
            a[1] = a[0] + rng.uniform(0, .3) * dx
        k = [0 if x < xs else min(int((x - xs) / dx), n - 1) for x in a]
        return dict(dx=dx, xs=xs, n=n, v=[rng.uniform(-1, 1) for _ in range(n * ns)], x1=a[0], x2=a[1], na=rng.uniform(-1, 1), k1=k[0], k2=k[1])

    def gfuns(inp):
        def I(s):
            return lambda k: sum(inp['dx'] * (inp['v'][j * ns + s] + inp['v'][(j + 1) * ns + s]) / 2 for j in range(int(k)))
        return {f'I{s}': I(s) for s in range(ns)}
    return Unit(f'integrate_{ns}', 'series.cpp', f'w_series{ns}',
                [S('dx', 'f64'), S('xs', 'f64'), S('n', 'u64', 1, NMAX), A('v', 'f64', lambda c: c.i.n * ns), S('x1', 'f64'), S('x2', 'f64'), S('na', 'f64'),
                 S('k1', 'u64', 0, NMAX), S('k2', 'u64', 0, NMAX), A('o', 'f64', ns, 'out')],
                ens, req, cfg=CFG, inv=True, cands=cands, axioms=ax, lemmas=lemmas, sample=sample, gfuns=gfuns)


def units():
    return [series(1), series(2)]
