"""Viscoelastic attenuation (impl/seismic/setups/ViscoElasticity)."""
from fractions import Fraction as Fr
import math
from vp.unit import Unit, S, A
from vp import terms as t, build
from vp.exec import Ptr, ty_f64
from vp.terms import implies, band, bor, ite, eq, rabs, bnot, rsqrt, forall
from .p05 import mat

CFG = dict(EL='TET4', EQ='SEISMIC', ORDER=2, PRECISION=64, RMS=0, flags=['-I' + build.VERIF + '/shim/eigen'])
PI2 = Fr(2) * Fr(math.pi)
MECHS = (1, 2, 3, 4)

ASSUMPTIONS = ['The least squares solver of Eigen is a dependency: its solution is an arbitrary function of matrix and right-hand side, both of which are under contract.',
               'Numbers of relaxation mechanisms (a compile-time constant of a solver configuration): 1 to 4.']


def at(p, k):
    return Ptr(p.r, t.iadd(p.o, 8 * k) if t.is_t(p.o) else p.o + 8 * k)


def lsq(ex, st, args):
    """contract of the dependency: some function of the system"""
    m, b, x, rows, cols = args
    sys = [ex.load(st, at(m, k), ty_f64) for k in range(rows * cols)] + [ex.load(st, at(b, k), ty_f64) for k in range(rows)]
    for k in range(cols):
        ex.store_(st, at(x, k), t.rfun(f'lsq{rows}_{cols}_{k}', *sys), ty_f64)
    return 0


def lame_contract(ex, st, args):
    """elasticLame: some function of its arguments, see unit elasticLame"""
    n, ref, fr, ck, cm, lam, mu, ol, om = args
    xs = [ref, lam, mu] + [ex.load(st, at(fr, 2 * k), ty_f64) for k in range(n)] + [ex.load(st, at(p, k), ty_f64) for p in (ck, cm) for k in range(n)]
    for p, f in ((ol, 'lamE'), (om, 'muE')):
        ex.store_(st, p, t.rfun(f, *xs), ty_f64)
    return 0


def freq(cen, rat, n, k):
    f0 = PI2 * cen / rsqrt(rat)
    return f0 if k == 0 else f0 * t.rpow(rat, Fr(k, 2 * (n - 1)))


def freqs(n):
    return Unit(f'frequencies_{n}', 'visco.cpp', 'w_freqs', [S('n', 'u16', val=n), S('cen', 'f64'), S('rat', 'f64'), A('o', 'f64', 2 * n - 1, 'out')],
                lambda c: [(f'angular frequency {k}: logarithmically equispaced around the central frequency', eq(c.o.o[k], freq(c.i.cen, c.i.rat, n, k))) for k in range(2 * n - 1)],
                lambda c: [c.i.cen > 0, c.i.rat > 0], cfg=CFG, sample=lambda rng: dict(cen=rng.uniform(.1, 5), rat=rng.uniform(1, 200)))


def fit(n):
    m = 2 * n - 1

    def ens(c):
        q, fr = c.i.q, c.i.fr
        e = []
        for k in range(m):
            for l in range(n):
                w = fr[2 * l]
                e.append((f'frequency {k}, mechanism {l}: contribution to the inverse quality factor', eq(c.o.mat[k * n + l], (w * fr[k] + w * w / q) / (fr[k] * fr[k] + w * w))))
            e.append((f'frequency {k}: constant quality factor', eq(c.o.rhs[k], 1 / q)))
        return e
    return Unit(f'anelasticCoeffPs_{n}', 'visco.cpp', 'w_fit', [S('n', 'u16', val=n), S('q', 'f64'), A('fr', 'f64', m), A('x', 'f64', n, 'out'), A('mat', 'f64', m * n, 'out'), A('rhs', 'f64', m, 'out')],
                ens, lambda c: [c.i.q > 0] + [x > 0 for x in c.i.fr], cfg=CFG, contracts={'^vp_lsq$': lsq},
                sample=lambda rng: dict(q=rng.uniform(5, 100), fr=sorted(rng.uniform(.1, 50) for _ in range(m))))


def smpl(n):
    def sample(rng):
        fr = sorted(rng.uniform(.1, 50) for _ in range(2 * n - 1))
        return dict(ref=rng.uniform(.5, 20), fr=fr, ck=[rng.uniform(0, .1) for _ in range(n)], cm=[rng.uniform(0, .1) for _ in range(n)], lam=rng.uniform(1, 3), mu=rng.uniform(1, 3))
    return sample


def lame(n):
    def ens(c):
        def modulus(y, m):
            # complex modulus at the reference frequency, relative to the unrelaxed one: th1 + i*th2
            th1, th2 = Fr(1), Fr(0)
            for l in range(n):
                r = c.i.ref / c.i.fr[2 * l]
                th1 = th1 - y[l] / (1 + r * r)
                th2 = th2 + y[l] * r / (1 + r * r)
            s = rsqrt(th1 * th1 + th2 * th2)
            return m * (s + th1) / (2 * s * s)
        lam, mu = c.o.o[0], c.o.o[1]
        return [('shear modulus: S-wave phase velocity is met at the reference frequency', eq(mu, modulus(c.i.cm, c.i.mu))),
                ('P-wave modulus: P-wave phase velocity is met at the reference frequency', eq(lam + 2 * mu, modulus(c.i.ck, c.i.lam + 2 * c.i.mu)))]
    return Unit(f'elasticLame_{n}', 'visco.cpp', 'w_lame', [S('n', 'u16', val=n), S('ref', 'f64'), A('fr', 'f64', 2 * n - 1), A('ck', 'f64', n), A('cm', 'f64', n), S('lam', 'f64'), S('mu', 'f64'), A('o', 'f64', 2, 'out')],
                ens, lambda c: [c.i.ref > 0] + [x > 0 for x in c.i.fr], cfg=CFG, opts=dict(check_div=False), sample=smpl(n))


SRC = {2: 3, 3: 6}


def src(nd, csr, n):
    m = SRC[nd]
    nz = [(i, j) for i in range(m) for j in range(m) if i == j or (i < nd and j < nd)]
    sz = len(nz) if csr else m * m

    def ens(c):
        y, (lam, mu) = c.o.y, c.o.l
        e = [('elastic Lame parameters follow from the fits', band(eq(c.o.r[0], lam), eq(c.o.r[1], mu)))]
        for k in range(n):
            p, s = (lam + 2 * mu) * y[k], 2 * mu * y[n + k]
            want = lambda i, j: -s if i == j and i >= nd else (-p if i == j else (-(p - s) if i < nd and j < nd else Fr(0)))
            o = c.o.s[k * sz:(k + 1) * sz]
            g = [eq(o[q], want(i, j)) for q, (i, j) in enumerate(nz)] if csr else [eq(o[i * m + j], want(i, j)) for i in range(m) for j in range(m)]
            e.append((f'mechanism {k}: source matrix relaxes P-wave modulus and shear modulus with the respective fits', implies(bnot(eq(lam, 0)), band(*g))))
        return e

    def sample(rng):
        return dict(p=[rng.uniform(.5, 5), rng.uniform(10, 120), rng.uniform(20, 100), rng.uniform(20, 100), rng.uniform(1, 3), rng.uniform(1, 3)])
    return Unit(f'src_{nd}d_{"csr" if csr else "dense"}_{n}', 'visco.cpp', f'w_src{nd}{"c" if csr else ""}',
                [S('n', 'u16', val=n), A('p', 'f64', 6), A('fr', 'f64', 2 * n - 1, 'out'), A('y', 'f64', 2 * n, 'out'), A('l', 'f64', 2, 'out'), A('r', 'f64', 2, 'out'), A('s', 'f64', n * sz, 'out')],
                ens, lambda c: [x > 0 for x in c.i.p], cfg=CFG, opts=dict(check_div=False),
                contracts={'^vp_lsq$': lsq, '^_ZN4edge7seismic6setups15ViscoElasticity11elasticLameE': lame_contract}, sample=sample)


def units():
    us = []
    for n in MECHS:
        us += [freqs(n), fit(n), lame(n)]
        us += [src(nd, csr, n) for nd in (2, 3) for csr in (False, True) if n == 3 or not csr]
    return us
