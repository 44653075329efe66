"""F-wave Riemann solver of the shallow water equations (src/impl/swe/solvers/Fwave.hpp)."""
from fractions import Fraction as Fr
from vp.unit import Unit, S, A
from vp import terms as t
from vp import ct
from vp import exec as X
from vp.terms import implies, band, ite, eq, rsqrt, rmin, rmax


def speeds(hL, hR, huL, huR, g):
    """Einfeldt speeds: extrema of the characteristic and the Roe speeds"""
    uL, uR = huL / hL, huR / hR
    hr = (hL + hR) * Fr(1, 2)
    ur = (rsqrt(hL) * uL + rsqrt(hR) * uR) / (rsqrt(hL) + rsqrt(hR))
    return (rmin(uL - rsqrt(g * hL), ur - rsqrt(g * hr)), rmax(uR + rsqrt(g * hR), ur + rsqrt(g * hr)))


def jump(hL, hR, huL, huR, bL, bR, g):
    j0 = huR - huL
    j1 = (huR * huR / hR + Fr(1, 2) * g * hR * hR) - (huL * huL / hL + Fr(1, 2) * g * hL * hL) + Fr(1, 2) * g * (hR + hL) * (bR - bL)
    return j0, j1


def jump_app(hL, hR, huL, huR, bL, bR, g):
    """flux jump with the momentum component as an opaque function (for callers)"""
    return huR - huL, t.app('momentumJump', (hL, hR, huL, huR, bL, bR, g), 'R')


def post(hL, hR, huL, huR, bL, bR, g, L, R, jump_=jump):
    """postcondition of the Riemann solver: [(label, formula)]"""
    j0, j1 = jump_(hL, hR, huL, huR, bL, bR, g)
    l0, l1 = speeds(hL, hR, huL, huR, g)
    return [('mass: net-updates sum to the flux jump', eq(L[0] + R[0], j0)),
            ('momentum: net-updates sum to the flux jump plus bathymetry source', eq(L[1] + R[1], j1)),
            ('lake at rest is preserved', implies(band(eq(huL, 0), eq(huR, 0), eq(hL + bL, hR + bR)), band(*[eq(x, 0) for x in L + R]))),
            ('equal states: no update', implies(band(eq(hL, hR), eq(huL, huR), eq(bL, bR)), band(*[eq(x, 0) for x in L + R]))),
            ('no water crosses the mirror plane of mirrored states', implies(band(eq(hL, hR), eq(huL, -huR), eq(bL, bR)), band(eq(L[0], -huL), eq(R[0], huR)))),
            ('no left-going update if both waves go right', implies(l0 >= 0, band(eq(L[0], 0), eq(L[1], 0)))),
            ('no right-going update if both waves go left', implies(l1 <= 0, band(eq(R[0], 0), eq(R[1], 0)))),
            ('left update is carried by the slow wave', implies(band(l0 < 0, l1 > 0), eq(L[1], l0 * L[0]))),
            ('right update is carried by the fast wave', implies(band(l0 < 0, l1 > 0), eq(R[1], l1 * R[0])))]


def callee(ncr):
    """contract of the Riemann solver for its callers (proved by the units of P14)"""
    def fn(ex, st, a):
        pL, pR, qL, qR, bL, bR, oL, oR, g = a
        for k in range(ncr):
            hL, hR, huL, huR = [ct.rd(ex, st, p, k) for p in (pL, pR, qL, qR)]
            ex.oblige('requires (Riemann solver)', st, band(hL > 0, hR > 0, g > 0))
            L, R = ([t.rvar(t.fresh_name('nu')) for _ in range(2)] for _ in range(2))
            for q in range(2):
                ct.wr(ex, st, oL, q * ncr + k, L[q])
                ct.wr(ex, st, oR, q * ncr + k, R[q])
            for _, f in post(hL, hR, huL, huR, bL, bR, g, L, R, jump_=jump_app)[:5]:
                ex.assume(st, f)
        return X.UV
    return fn


def fw(ncr, name, fn, g=None):
    cfg = dict(EQ='SWE', EL='QUAD4R', ORDER=1, flags=[f'-DVP_CR={ncr}'])

    def G(c):
        return c.i.g if g is None else g

    def req(c):
        r = [G(c) > 0] if g is None else []
        for k in range(ncr):
            r += [c.i.hL[k] > 0, c.i.hR[k] > 0]
        return r

    def ens(c):
        e = []
        for k in range(ncr):
            a = (c.i.hL[k], c.i.hR[k], c.i.huL[k], c.i.huR[k])
            L = (c.o.nusL[k], c.o.nusL[ncr + k])
            R = (c.o.nusR[k], c.o.nusR[ncr + k])
            e += [(f'{lab}, run {k}', f) for lab, f in post(*a, c.i.bL, c.i.bR, G(c), L, R)]
        return e

    def sample(rng):
        p = lambda: [rng.choice([rng.uniform(.1, 5), rng.uniform(.01, .2), 1., 2.]) for _ in range(ncr)]
        d = dict(hL=p(), hR=p(), huL=[rng.choice([0., rng.uniform(-3, 3), rng.uniform(-30, 30)]) for _ in range(ncr)],
                 huR=[rng.choice([0., rng.uniform(-3, 3), rng.uniform(-30, 30)]) for _ in range(ncr)], bL=rng.uniform(-3, 3))
        d['bR'] = d['hL'][0] + d['bL'] - d['hR'][0] if rng.random() < .4 else rng.uniform(-3, 3)
        if g is None:
            d['g'] = rng.choice([1., 9.81, 3.7, .5])
        if rng.random() < .2:
            d['hR'], d['huR'], d['bR'] = list(d['hL']), [-x for x in d['huL']], d['bL']
        return d
    ps = [A('hL', 'f64', ncr), A('hR', 'f64', ncr), A('huL', 'f64', ncr), A('huR', 'f64', ncr), S('bL', 'f64'), S('bR', 'f64')]
    if g is None:
        ps.append(S('g', 'f64'))
    ps += [A('nusL', 'f64', 2 * ncr, 'out'), A('nusR', 'f64', 2 * ncr, 'out')]
    return Unit(name, 'swe.cpp', fn, ps, ens, req, cfg=cfg, sample=sample)


def units():
    return [fw(1, 'fwave_1', 'w_fwave'), fw(2, 'fwave_2', 'w_fwave'), fw(1, 'fwave_default_gravity', 'w_fwaveDef', Fr(980665, 100000))]
