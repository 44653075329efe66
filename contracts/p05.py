"""Elastic and viscoelastic wave equations: Jacobians, star matrices, rotations (impl/seismic/common.hpp, setups)."""
from fractions import Fraction as Fr
from vp.unit import Unit, S, A
from vp import terms as t
from vp.terms import implies, band, bor, ite, eq, rabs, bnot, rsqrt

SIG = {2: [(0, 0), (1, 1), (0, 1)], 3: [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]}
CFG = dict(EL='TET4', EQ='SEISMIC', ORDER=2, PRECISION=64)


def jac(nd, d, rho, lam, mu):
    """A_d of the first order system q_t + sum A_d q_d = 0 (elastodynamics)"""
    sg = SIG[nd]
    ns = len(sg)
    n = ns + nd
    a = [[Fr(0)] * n for _ in range(n)]
    for r, (i, j) in enumerate(sg):
        for k in range(nd):
            x = Fr(0)
            if i == j and d == k:
                x = x + lam
            x = x + ((d == i and k == j) + (d == j and k == i)) * mu
            a[r][ns + k] = -x
    for i in range(nd):
        for cidx, (x, y) in enumerate(sg):
            if sorted((i, d)) == [x, y]:
                a[ns + i][cidx] = -1 / rho
    return a


def jacA(nd, d):
    """anelastic part: strain rates"""
    sg = SIG[nd]
    a = [[Fr(0)] * nd for _ in sg]
    for r, (i, j) in enumerate(sg):
        for k in range(nd):
            a[r][k] = -Fr((d == i and k == j) + (d == j and k == i), 2)
    return a


def mat(xs, n, m, off=0):
    return [[xs[off + i * m + j] for j in range(m)] for i in range(n)]


def same(a, b):
    return band(*[eq(x, y) for r, s in zip(a, b) for x, y in zip(r, s)])


def mul(a, b):
    return [[t.total([a[i][k] * b[k][j] for k in range(len(b)) if not (zero(a[i][k]) or zero(b[k][j]))]) for j in range(len(b[0]))] for i in range(len(a))]


def zero(x):
    return not t.is_t(x) and x == 0


def u3(rng):
    return dict(r=rng.uniform(.5, 3), l=rng.uniform(.1, 3), m=rng.uniform(.1, 3))


def rnd(n, rng):
    return [rng.uniform(-2, 2) for _ in range(n)]


def jacobians(nd):
    n = len(SIG[nd]) + nd
    return Unit(f'getJac_{nd}d', 'seis.cpp', f'w_jac{nd}', [S('r', 'f64'), S('l', 'f64'), S('m', 'f64'), A('o', 'f64', nd * n * n, 'out')],
                lambda c: [(f'Jacobian {d} is the one of the elastic wave equations', same(mat(c.o.o, n, n, d * n * n), jac(nd, d, c.i.r, c.i.l, c.i.m))) for d in range(nd)],
                lambda c: [c.i.r > 0], cfg=CFG, sample=u3)


def star(nd, csr):
    n = len(SIG[nd]) + nd

    def comb(c, d):
        js = [jac(nd, k, c.i.r, c.i.l, c.i.m) for k in range(nd)]
        return [[t.total([js[k][i][j] * c.i.j[k * nd + d] for k in range(nd) if not zero(js[k][i][j])]) for j in range(n)] for i in range(n)]
    nz = [(i, j) for i in range(n) for j in range(n) if any(not zero(jac(nd, k, Fr(1), Fr(3), Fr(5))[i][j]) for k in range(nd))]
    sz = len(nz) if csr else n * n

    def ens(c):
        e = []
        for d in range(nd):
            m = comb(c, d)
            o = c.o.o[d * sz:(d + 1) * sz]
            if csr:
                e.append((f'star matrix {d}: non-zeros of the combination of the Jacobians, by row', band(*[eq(o[k], m[i][j]) for k, (i, j) in enumerate(nz)])))
            else:
                e.append((f'star matrix {d} is the combination of the Jacobians with the inverse Jacobian of the mapping', same(mat(o, n, n), m)))
        return e
    return Unit(f'star_{nd}d_{"csr" if csr else "dense"}', 'seis.cpp', f'w_star{nd}{"c" if csr else ""}', [S('r', 'f64'), S('l', 'f64'), S('m', 'f64'), A('j', 'f64', nd * nd), A('o', 'f64', nd * sz, 'out')],
                ens, lambda c: [c.i.r > 0], cfg=CFG, sample=lambda rng: dict(u3(rng), j=rnd(nd * nd, rng)))


def starA(nd, csr):
    n = len(SIG[nd])

    def comb(c, d):
        js = [jacA(nd, k) for k in range(nd)]
        return [[t.total([js[k][i][j] * c.i.j[k * nd + d] for k in range(nd) if js[k][i][j]]) for j in range(nd)] for i in range(n)]
    nz = [(i, j) for i in range(n) for j in range(nd) if any(jacA(nd, k)[i][j] for k in range(nd))]
    sz = len(nz) if csr else n * nd

    def ens(c):
        e = []
        for d in range(nd):
            m = comb(c, d)
            o = c.o.o[d * sz:(d + 1) * sz]
            g = band(*[eq(o[k], m[i][j]) for k, (i, j) in enumerate(nz)]) if csr else same(mat(o, n, nd), m)
            e.append((f'anelastic star matrix {d}: strain rates', g))
        return e
    return Unit(f'starA_{nd}d_{"csr" if csr else "dense"}', 'seis.cpp', f'w_starA{nd}{"c" if csr else ""}', [A('j', 'f64', nd * nd), A('o', 'f64', nd * sz, 'out')],
                ens, None, cfg=CFG, sample=lambda rng: dict(j=rnd(nd * nd, rng)))


def rot(ax, inv, nd):
    """rotation of stresses and velocities"""
    sg = SIG[nd]
    ns = len(sg)
    n = ns + nd
    # R[i][a]: component i of axis a
    R = [[ax[a][i] for a in range(nd)] for i in range(nd)]
    if inv:
        R = [list(x) for x in zip(*R)]
    m = [[Fr(0)] * n for _ in range(n)]
    for r, (i, j) in enumerate(sg):
        for k, (a, b) in enumerate(sg):
            m[r][k] = R[i][a] * R[j][b] + (R[i][b] * R[j][a] if a != b else 0)
    for i in range(nd):
        for a in range(nd):
            m[ns + i][ns + a] = R[i][a]
    return m


def rotation(nd):
    sg = SIG[nd]
    ns = len(sg)
    n = ns + nd

    def axes(c):
        """columns: face-normal, tangents"""
        if nd == 2:
            a = [c.i.n[0], c.i.n[1]]
            return [a, [-a[1], a[0]]]
        return [[c.i.n[3 * k + d] for d in range(3)] for k in range(3)]

    def req(c):
        ax = axes(c)
        if nd == 2:
            return [eq(ax[0][0] * ax[0][0] + ax[0][1] * ax[0][1], 1)]
        (a, b, d), (e, f, g), (h, i, j) = ax
        return [bnot(eq(a * (f * j - g * i) - b * (e * j - g * h) + d * (e * i - f * h), 0))]

    def ens(c):
        ax = axes(c)
        T, Ti = mat(c.o.t, n, n), mat(c.o.tm1, n, n)
        e = [('stresses and velocities are rotated from face-aligned to physical coordinates', same(T, rot(ax, False, nd)))]
        if nd == 2:
            e.append(('stresses and velocities are rotated from physical to face-aligned coordinates', same(Ti, rot(ax, True, nd))))
        else:
            for i in range(n):
                P = mul([Ti[i]], T)[0]
                e.append((f'the rotations are inverse to each other (row {i})', band(*[eq(P[j], int(i == j)) for j in range(n)])))
        return e

    def sample(rng):
        import math
        if nd == 2:
            a = rng.uniform(0, 7)
            return dict(n=[math.cos(a), math.sin(a)])
        while True:
            v = rnd(6, rng)
            l = math.sqrt(sum(x * x for x in v[:3]))
            a = [x / l for x in v[:3]]
            p = sum(x * y for x, y in zip(a, v[3:]))
            b = [y - p * x for x, y in zip(a, v[3:])]
            l2 = math.sqrt(sum(x * x for x in b))
            if l > .1 and l2 > .1:
                b = [x / l2 for x in b]
                return dict(n=a + b + [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    # 2D: unit normal; 3D: any non-degenerate face-normal and tangents
    return Unit(f'rotation_{nd}d', 'seis.cpp', f'w_trafo{nd}', [A('n', 'f64', 2 if nd == 2 else 9), A('t', 'f64', n * n, 'out'), A('tm1', 'f64', n * n, 'out')],
                ens, req, cfg=CFG, sample=sample)


def units():
    return [u for nd in (2, 3) for u in (jacobians(nd), star(nd, False), star(nd, True), starA(nd, False), starA(nd, True), rotation(nd))]
