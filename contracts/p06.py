"""Flux solvers of the elastic and viscoelastic wave equations (impl/seismic/setups)."""
from fractions import Fraction as Fr
from vp.unit import Unit, S, A
from vp import terms as t
from vp.terms import implies, band, bor, ite, eq, rabs, bnot, rsqrt
from .p05 import SIG, CFG, mat, same, mul, zero, rnd

# rows/columns of the face-aligned system: normal stress, further normal stresses, (shear stress, tangential velocity) pairs
AX = {2: (0, [1], [(2, 4)], 3), 3: (0, [1, 2], [(3, 7), (5, 8)], 6)}


def par(c):
    p = c.i.p
    return dict(L=(p[0], p[2], p[4]), R=(p[1], p[3], p[5]))


def pos(ac=False):
    def req(c):
        return [x > 0 for x in c.i.p[:4]] + [(eq(x, 0) if ac else x > 0) for x in c.i.p[4:6]]
    return req


def smp(ac=False):
    return lambda rng: dict(p=[rng.uniform(.5, 3) for _ in range(4)] + ([0., 0.] if ac else [rng.uniform(.2, 2) for _ in range(2)]))


def impedances(c):
    """(Z_p left, right), (Z_s left, right)"""
    q = par(c)
    z = lambda m, rho: rho * rsqrt(m / rho)
    return tuple(z(q[s][1] + 2 * q[s][2], q[s][0]) for s in 'LR'), tuple(z(q[s][2], q[s][0]) for s in 'LR')


def middle(zl, zr):
    """coefficients w.r.t. (sigma_L, v_L, sigma_R, v_R) of the solution of the Riemann problem at the face:
    sigma*, v* with sigma* - sigma_L = Z_L (v* - v_L) and sigma* - sigma_R = -Z_R (v* - v_R)"""
    s = zl + zr
    return (zr / s, -zl * zr / s, zl / s, zl * zr / s), (-1 / s, zl / s, 1 / s, zr / s)


def flux(nd, c, ac=False):
    """left and right solver: A_L applied to the middle state"""
    n = len(SIG[nd]) + nd
    rho, lam, mu = par(c)['L']
    l, r = ([[Fr(0)] * n for _ in range(n)] for _ in range(2))
    s0, others, shear, v0 = AX[nd]
    (zpl, zpr), (zsl, zsr) = impedances(c)
    sg, ve = middle(zpl, zpr)

    def put(row, f, co, a, b):
        l[row][a], l[row][b], r[row][a], r[row][b] = [f * x for x in co]
    put(s0, -(lam + 2 * mu), ve, s0, v0)
    for o in others:
        put(o, -lam, ve, s0, v0)
    put(v0, -1 / rho, sg, s0, v0)
    for a, b in shear:
        if ac:
            continue
        sg, ve = middle(zsl, zsr)
        put(a, -mu, ve, a, b)
        put(b, -1 / rho, sg, a, b)
    return l, r


def fluxA(nd, c):
    """strain rates at the middle state"""
    ns = len(SIG[nd])
    n = ns + nd
    l, r = ([[Fr(0)] * n for _ in range(ns)] for _ in range(2))
    s0, others, shear, v0 = AX[nd]
    zp, zs = impedances(c)
    for (row, f, z, a, b) in [(s0, Fr(-1), zp, s0, v0)] + [(a, Fr(-1, 2), zs, a, b) for a, b in shear]:
        _, ve = middle(*z)
        l[row][a], l[row][b], r[row][a], r[row][b] = [f * x for x in ve]
    return l, r


# stresses which act on the face: sign changes at a free surface
TRAC = {2: (0, 2), 3: (0, 3, 5)}


def mirror(nd, r):
    return [[-x if j in TRAC[nd] else x for j, x in enumerate(row)] for row in r]


def mid(nd, an, fs, ac=False):
    ns = len(SIG[nd])
    n = ns + nd
    nr = ns if an else n

    def ens(c):
        l, r = fluxA(nd, c) if an else flux(nd, c, ac)
        if fs:
            r = mirror(nd, r)
        L, R = mat(c.o.l, nr, n), mat(c.o.r, nr, n)
        e = []
        for i in range(nr):
            if ac and i in (2, 4):
                continue
            what = ('strain rate' if an else 'flux') + f' {i} of the Riemann solution'
            e.append((what + ', left side', band(*[eq(L[i][j], l[i][j]) for j in range(n)])))
            e.append((what + (', mirrored tractions (free surface)' if fs else ', right side'), band(*[eq(R[i][j], r[i][j]) for j in range(n)])))
        if ac:
            # no shear: the tangential velocities carry the (vanishing) shear stresses only
            e.append(('no shear stress emerges', band(*[eq(x, 0) for x in L[2] + R[2]])))
            e.append(('tangential velocity only depends on the shear stresses', band(*[eq(x, 0) for j, x in list(enumerate(L[4])) + list(enumerate(R[4])) if j != 2])))
        return e
    return Unit(f'fs_{nd}d{"_anelastic" if an else ""}{"_acoustic" if ac else ""}{"_freesurface" if fs else ""}', 'seis.cpp', f'w_mid{"A" if an else ""}{nd}',
                [A('p', 'f64', 6), A('l', 'f64', nr * n, 'out'), A('r', 'f64', nr * n, 'out'), S('f', 'u8', val=int(fs))],
                ens, pos(ac), cfg=CFG, sample=smp(ac))


def rot(nd, an, fs):
    """rotated solver = T * face-aligned solver * inverse T"""
    ns = len(SIG[nd])
    n = ns + nd
    nr = ns if an else n

    def ens(c):
        T, Ti = mat(c.i.t, nr, nr), mat(c.i.tm1, n, n)
        e = []
        for s in 'lr':
            M = mat(getattr(c.o, 'm' + s), nr, n)
            F = mat(getattr(c.o, s), nr, n)
            P = mul(mul(T, M), Ti)
            for i in range(nr):
                e.append((f'{"left" if s == "l" else "right"} solver: row {i} is the face-aligned solver in physical coordinates', band(*[eq(F[i][j], P[i][j]) for j in range(n)])))
        return e
    return Unit(f'fs_{nd}d{"_anelastic" if an else ""}_rotated{"_freesurface" if fs else ""}', 'seis.cpp', f'w_rot{"A" if an else ""}{nd}',
                [A('p', 'f64', 6), A('t', 'f64', nr * nr), A('tm1', 'f64', n * n)] + [A(x, 'f64', nr * n, 'out') for x in ('l', 'r', 'ml', 'mr')] + [S('f', 'u8', val=int(fs))],
                ens, pos(), cfg=CFG, sample=lambda rng: dict(smp()(rng), t=rnd(nr * nr, rng), tm1=rnd(n * n, rng)))


def units():
    us = []
    for nd in (2, 3):
        for an in (False, True):
            us += [mid(nd, an, False), mid(nd, an, True), rot(nd, an, False), rot(nd, an, True)]
    us += [mid(2, False, False, True), mid(2, False, True, True)]
    return us
