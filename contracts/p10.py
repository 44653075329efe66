"""ADER-DG kernels of the wave equations: volume integration, time prediction, surface integration (vanilla kernels)."""
from fractions import Fraction as Fr
from math import factorial
from vp.unit import Unit, S, A
from vp import terms as t
from vp.terms import band, bor, eq

EL = dict(LINE=(1, 2, 2), TET4=(3, 4, 12), TRIA3=(2, 3, 3), QUAD4R=(2, 4, 4), HEX8R=(3, 6, 6))   # dimensions, faces, neighboring flux matrices
CASES = [('tet2', 'TET4', 2, 1, 0), ('tet2a', 'TET4', 2, 1, 1), ('tri2a', 'TRIA3', 2, 2, 2), ('tri3', 'TRIA3', 3, 1, 0), ('tri3a', 'TRIA3', 3, 1, 1),
         ('quad2', 'QUAD4R', 2, 2, 0), ('hex2', 'HEX8R', 2, 1, 0)]


def modes(el, o):
    if o == 0:
        return 0
    return {'TET4': o * (o + 1) * (o + 2) // 6, 'TRIA3': o * (o + 1) // 2, 'QUAD4R': o * o, 'HEX8R': o ** 3, 'LINE': o, 'POINT': 1}[el]


class G:
    def __init__(s, name, el, o, cr, rm, adv=False):
        s.name, s.el, s.o, s.cr, s.rm = name, el, o, cr, rm
        s.d, s.f, s.fn = EL[el]
        s.m = modes(el, o)
        s.mf = modes({'TET4': 'TRIA3', 'TRIA3': 'LINE', 'QUAD4R': 'LINE', 'LINE': 'POINT', 'HEX8R': 'QUAD4R'}[el], o)
        s.qm = 3 if s.d == 2 else 6
        s.qe = s.qm + s.d
        s.cfg = dict(EL=el, EQ='ADVECTION' if adv else 'SEISMIC', ORDER=o, PRECISION=64, N_CRUNS=cr, flags=[f'-DVP_CR={cr}', f'-DVP_RM={rm}'] + (['-DVP_ADV'] if adv else []))
        s.hier = el in ('TET4', 'TRIA3')

    def deg(s, m):
        """degree of a mode in the hierarchical basis"""
        return next(k for k in range(s.o) if m < modes(s.el, k + 1))

    def e(s, q, m, c):
        return (q * s.m + m) * s.cr + c

    def fe(s, q, m, c):
        return (q * s.mf + m) * s.cr + c

    def sE(s):
        return s.qe * s.m * s.cr

    def sA(s):
        return s.qm * s.m * s.cr

    def each(s, nq, nm):
        return [(q, m, c) for q in range(nq) for m in range(nm) for c in range(s.cr)]


def arr(n, name, mode='in', vals=None):
    return A(name, 'f64', n, mode, vals=vals)


def sm(xs):
    return t.total([a for a in xs if t.is_t(a) or a != 0])


def stiff(g, transposed):
    """the derivative of a mode of the hierarchical basis has only components of lower degree"""
    v = []
    for d in range(g.d):
        for k in range(g.m):
            for m in range(g.m):
                lo, hi = (m, k) if transposed else (k, m)
                v.append(None if not g.hier or g.deg(lo) < g.deg(hi) else Fr(0))
    return v


def flux(g):
    return [arr(g.f * g.m * g.mf, 'fl'), arr(g.fn * g.m * g.mf, 'fn'), arr(g.f * g.m * g.mf, 'ft')]


def vol(g):
    nE, nA = g.sE(), g.sA()

    def ens(c):
        i, o = c.i, c.o
        K = lambda d, k, m: i.st[(d * g.m + k) * g.m + m]
        sc = {}
        for d in range(g.d):
            for q, m, cr in g.each(g.qe, g.m):
                sc[d, q, m, cr] = sm([i.tE[g.e(q, k, cr)] * K(d, k, m) for k in range(g.m)])
        e = []
        for q in range(g.qe):
            gl = []
            for _, m, cr in g.each(1, g.m):
                x = i.dE[g.e(q, m, cr)] + sm([i.sE[(d * g.qe + q) * g.qe + r] * sc[d, r, m, cr] for d in range(g.d) for r in range(g.qe)])
                if q < g.qm:
                    x = x + sm([i.so[(a * g.qm + q) * g.qm + r] * i.tA[a * nA + g.e(r, m, cr)] for a in range(g.rm) for r in range(g.qm)])
                gl.append(eq(o.dE[g.e(q, m, cr)], x))
            e.append((f'quantity {q}: volume integral of the flux (stiffness matrices, Jacobians) and sources of the memory variables are added', band(*gl)))
        for a in range(g.rm):
            gl = []
            for q, m, cr in g.each(g.qm, g.m):
                f = sm([i.sA[(d * g.qm + q) * g.d + r] * sc[d, g.qm + r, m, cr] for d in range(g.d) for r in range(g.d)])
                gl.append(eq(o.dA[a * nA + g.e(q, m, cr)], i.dA[a * nA + g.e(q, m, cr)] + i.rf[a] * (f - i.tA[a * nA + g.e(q, m, cr)])))
            e.append((f'memory variables {a}: strain rates minus decay, scaled with the relaxation frequency', band(*gl)))
        return e
    return Unit(f'volume_{g.name}', 'ader.cpp', 'w_vol', [arr(g.d * g.qe * g.qe, 'sE'), arr(max(g.rm, 0) and g.d * g.qm * g.d, 'sA'), arr(g.rm * g.qm * g.qm, 'so'), arr(g.rm, 'rf'),
                arr(g.d * g.m * g.m, 'st', vals=stiff(g, False)), arr(nE, 'tE'), arr(g.rm * nA, 'tA'), arr(nE, 'dE', 'io'), arr(g.rm * nA, 'dA', 'io'), arr(nE, 'scr', 'out')],
                ens, cfg=g.cfg)


def tim(g):
    """derivatives and integrals; the sign of the decay of the memory variables is decided by the units decay_*"""
    nE, nA = g.sE(), g.sA()

    def ens(c):
        if not g.rm:
            return spec(c, -1)
        return [(a, bor(x, y)) for (a, x), (_, y) in zip(spec(c, -1), spec(c, 1))]

    def spec(c, sign):
        i, o = c.i, c.o
        K = lambda d, k, m: -i.st[(d * g.m + k) * g.m + m]
        dE = {(0,) + x: i.qE[g.e(*x)] for x in g.each(g.qe, g.m)}
        dA = {(a, 0) + x: i.qA[a * nA + g.e(*x)] for a in range(g.rm) for x in g.each(g.qm, g.m)}
        e = []
        for k in range(g.o):
            if k:
                sc = {(d, q, m, cr): sm([dE[k - 1, q, l, cr] * K(d, l, m) for l in range(g.m)]) for d in range(g.d) for q, m, cr in g.each(g.qe, g.m)}
                for q, m, cr in g.each(g.qe, g.m):
                    x = sm([i.sE[(d * g.qe + q) * g.qe + r] * sc[d, r, m, cr] for d in range(g.d) for r in range(g.qe)])
                    if q < g.qm:
                        x = x + sm([i.so[(a * g.qm + q) * g.qm + r] * dA[a, k - 1, r, m, cr] for a in range(g.rm) for r in range(g.qm)])
                    dE[k, q, m, cr] = x
                for a in range(g.rm):
                    for q, m, cr in g.each(g.qm, g.m):
                        f = sm([i.sA[(d * g.qm + q) * g.d + r] * sc[d, g.qm + r, m, cr] for d in range(g.d) for r in range(g.d)])
                        dA[a, k, q, m, cr] = i.rf[a] * (f + sign * dA[a, k - 1, q, m, cr])
            e.append((f'time derivative {k}: Cauchy-Kowalevski procedure', band(*[eq(o.eE[k * nE + g.e(*x)], dE[(k,) + x]) for x in g.each(g.qe, g.m)])))
            for a in range(g.rm):
                e.append((f'time derivative {k} of memory variables {a}', band(*[eq(o.eA[(a * g.o + k) * nA + g.e(*x)], dA[(a, k) + x]) for x in g.each(g.qm, g.m)])))
        w = [_pow(i.dt, k + 1) * Fr(1, factorial(k + 1)) for k in range(g.o)]
        e.append(('time integrated degrees of freedom: integral of the Taylor series', band(*[eq(o.iE[g.e(*x)], sm([w[k] * dE[(k,) + x] for k in range(g.o)])) for x in g.each(g.qe, g.m)])))
        for a in range(g.rm):
            e.append((f'time integrated memory variables {a}', band(*[eq(o.iA[a * nA + g.e(*x)], sm([w[k] * dA[(a, k) + x] for k in range(g.o)])) for x in g.each(g.qm, g.m)])))
        return e
    return Unit(f'prediction_{g.name}', 'ader.cpp', 'w_tim', [S('dt', 'f64'), arr(g.d * g.qe * g.qe, 'sE'), arr(g.rm and g.d * g.qm * g.d, 'sA'), arr(g.rm * g.qm * g.qm, 'so'), arr(g.rm, 'rf'),
                arr(g.d * g.m * g.m, 'st', vals=stiff(g, True)), arr(nE, 'qE'), arr(g.rm * nA, 'qA'), arr(nE, 'scr', 'out'), arr(g.o * nE, 'eE', 'out'), arr(g.rm * g.o * nA, 'eA', 'out'),
                arr(nE, 'iE', 'out'), arr(g.rm * nA, 'iA', 'out')], ens, cfg=g.cfg)


def decay(g):
    """at rest the memory variables decay: d/dt theta = -omega theta (as in the volume integration)"""
    nE, nA = g.sE(), g.sA()
    return Unit(f'decay_{g.name}', 'ader.cpp', 'w_tim', [S('dt', 'f64'), arr(g.d * g.qe * g.qe, 'sE'), arr(g.d * g.qm * g.d, 'sA'), arr(g.rm * g.qm * g.qm, 'so', vals=[0] * (g.rm * g.qm * g.qm)),
                arr(g.rm, 'rf'), arr(g.d * g.m * g.m, 'st', vals=stiff(g, True)), arr(nE, 'qE', vals=[0] * nE), arr(g.rm * nA, 'qA'), arr(nE, 'scr', 'out'), arr(g.o * nE, 'eE', 'out'),
                arr(g.rm * g.o * nA, 'eA', 'out'), arr(nE, 'iE', 'out'), arr(g.rm * nA, 'iA', 'out')],
                lambda c: [('time prediction: memory variables without deformation decay with their relaxation frequency', band(*[
                    eq(c.o.eA[(a * g.o + k) * nA + j], _pow(-c.i.rf[a], k) * c.i.qA[a * nA + j]) for a in range(g.rm) for k in range(1, g.o) for j in range(nA)]))], cfg=g.cfg)


def _pow(x, n):
    r = x
    for _ in range(n - 1):
        r = r * x
    return r


def taylor(g, integ):
    """values of the Taylor series (integral: over the time step)"""
    nE = g.sE()
    n = 1 if integ else 2

    # elastic: modes of derivatives beyond the degree are zero (and not part of the time prediction)
    def live(k, m):
        return not g.hier or g.rm > 0 or m < modes(g.el, g.o - k)

    def ens(c):
        e = []
        for p in range(n):
            def w(k):
                return _pow(c.i.dt, k + 1) * Fr(1, factorial(k + 1)) if integ else (_pow(c.i.pt[p], k) * Fr(1, factorial(k)) if k else Fr(1))
            e.append(('integral of the Taylor series' if integ else f'Taylor series at point {p}', band(*[
                eq(c.o.o[p * nE + g.e(*x)], sm([w(k) * c.i.eE[k * nE + g.e(*x)] for k in range(g.o) if live(k, x[1])])) for x in g.each(g.qe, g.m)])))
        return e
    ps = [S('dt', 'f64')] if integ else [S('n', 'u16', val=n), arr(n, 'pt')]
    return Unit(f'{"integrate" if integ else "evaluate"}_{g.name}', 'ader.cpp', "w_tin" if integ else "w_tev", ps + [arr(g.o * nE, 'eE'), arr(n * nE, 'o', 'out')], ens, cfg=g.cfg)


def fluxint(g, i, f, q, T):
    """face-integrated degrees of freedom (flux matrix f)"""
    return {(m, cr): sm([T[g.e(q, k, cr)] * (i.fl if f < g.f else i.fn)[((f if f < g.f else f - g.f) * g.m + k) * g.mf + m] for k in range(g.m)]) for m in range(g.mf) for cr in range(g.cr)}


def solved(g, sv, off, nq, F):
    """flux solver applied to the face-integrated degrees of freedom"""
    return {(q, m, cr): sm([sv[off + q * g.qe + r] * F[r][m, cr] for r in range(g.qe)]) for q, m, cr in g.each(nq, g.mf)}


def loc(g):
    nE, nA = g.sE(), g.sA()

    def ens(c):
        i, o = c.i, c.o
        T = lambda f, k, m: i.ft[(f * g.mf + k) * g.m + m]
        F = {f: {q: fluxint(g, i, f, q, i.tE) for q in range(g.qe)} for f in range(g.f)}
        X = {f: solved(g, i.sE, f * g.qe * g.qe, g.qe, F[f]) for f in F}
        e = []
        for q in range(g.qe):
            e.append((f'quantity {q}: sum of the local face contributions', band(*[eq(o.dE[g.e(q, m, cr)], i.dE[g.e(q, m, cr)] + sm(
                [X[f][q, k, cr] * T(f, k, m) for f in F for k in range(g.mf)])) for m in range(g.m) for cr in range(g.cr)])))
        if g.rm:
            X = {f: solved(g, i.sA, f * g.qm * g.qe, g.qm, F[f]) for f in F}
            U = {x: sm([X[f][x[0], k, x[2]] * T(f, k, x[1]) for f in F for k in range(g.mf)]) for x in g.each(g.qm, g.m)}
            for a in range(g.rm):
                e.append((f'memory variables {a}: local face contributions scaled with the relaxation frequency', band(*[
                    eq(o.dA[a * nA + g.e(*x)], i.dA[a * nA + g.e(*x)] + i.rf[a] * U[x]) for x in U])))
        return e
    return Unit(f'surface_local_{g.name}', 'ader.cpp', 'w_loc', [arr(g.f * g.qe * g.qe, 'sE'), arr(g.rm and g.f * g.qm * g.qe, 'sA'), arr(g.rm, 'rf'),
                *flux(g), arr(nE, 'tE'), arr(nE, 'dE', 'io'), arr(g.rm * nA, 'dA', 'io'), arr(2 * g.qe * g.mf * g.cr, 'scr', 'out')], ens, cfg=g.cfg)


def fmat(g, fa, vid, fid):
    return fa if vid == 65535 else g.f + vid * g.f + fid


def nei(g, fa, vid, fid, pre):
    nE, nA, nF = g.sE(), g.sA(), g.qe * g.mf * g.cr

    def ens(c):
        i, o = c.i, c.o
        T = lambda k, m: i.ft[(fa * g.mf + k) * g.m + m]
        if pre:
            F = {q: {(m, cr): i.tF[g.fe(q, m, cr)] for m in range(g.mf) for cr in range(g.cr)} for q in range(g.qe)}
        else:
            F = {q: fluxint(g, i, fmat(g, fa, vid, fid), q, i.tE) for q in range(g.qe)}
        X = solved(g, i.sE, 0, g.qe, F)
        e = [('contribution of the neighboring element through the face', band(*[eq(o.dE[g.e(*x)], i.dE[g.e(*x)] + sm([X[x[0], k, x[2]] * T(k, x[1]) for k in range(g.mf)]))
                                                                                for x in g.each(g.qe, g.m)]))]
        if g.rm:
            X = solved(g, i.sA, 0, g.qm, F)
            e.append(('memory variables: unscaled contribution of the neighboring element', band(*[eq(o.up[g.e(*x)], i.up[g.e(*x)] + sm([X[x[0], k, x[2]] * T(k, x[1]) for k in range(g.mf)]))
                                                                                                   for x in g.each(g.qm, g.m)])))
        return e
    return Unit(f'surface_neigh_{g.name}_{"pre" if pre else f"{fa}_{vid}_{fid}"}', 'ader.cpp', 'w_nei',
                [S('fa', 'u16', val=fa), S('vId', 'u16', val=vid), S('fId', 'u16', val=fid), S('pre', 'u8', val=int(pre)), arr(g.qe * g.qe, 'sE'), arr(g.rm and g.qm * g.qe, 'sA'), arr(g.rm, 'rf'),
                 *flux(g), arr(nE, 'tE'), arr(nF, 'tF'), arr(nE, 'dE', 'io'), arr(nA, 'up', 'io'), arr(2 * nF, 'scr', 'out')], ens, cfg=g.cfg)


def nfi(g, fa, vid, fid):
    nE, nF = g.sE(), g.qe * g.mf * g.cr

    def ens(c):
        F = {q: fluxint(g, c.i, fmat(g, fa, vid, fid), q, c.i.tE) for q in range(g.qe)}
        return [('face integral with the flux matrix of the face, its vertex relation and neighboring face', band(*[eq(c.o.o[g.fe(q, m, cr)], F[q][m, cr]) for q, m, cr in g.each(g.qe, g.mf)]))]
    return Unit(f'flux_integral_{g.name}_{fa}_{vid}_{fid}', 'ader.cpp', 'w_nfi', [S('fa', 'u16', val=fa), S('vId', 'u16', val=vid), S('fId', 'u16', val=fid),
                arr(g.rm, 'rf'), *flux(g), arr(nE, 'tE'), arr(nF, 'o', 'out')], ens, cfg=g.cfg)


def sca(g):
    nA = g.sA()
    return Unit(f'scatter_{g.name}', 'ader.cpp', 'w_sca', [arr(g.rm, 'rf'), *flux(g), arr(nA, 'up'), arr(g.rm * nA, 'dA', 'io')],
                lambda c: [('memory variables receive the update scaled with their relaxation frequency', band(*[
                    eq(c.o.dA[a * nA + k], c.i.dA[a * nA + k] + c.i.rf[a] * c.i.up[k]) for a in range(g.rm) for k in range(nA)]))], cfg=g.cfg)


def adv_units(g):
    n = g.m * g.cr
    ix = lambda m, cr: m * g.cr + cr
    at = [(m, cr) for m in range(g.m) for cr in range(g.cr)]

    def vole(c):
        K = lambda d, k, m: c.i.st[(d * g.m + k) * g.m + m]
        return [('volume integral of the flux is added', band(*[eq(c.o.dE[ix(m, cr)], c.i.dE[ix(m, cr)] + sm(
            [c.i.sE[d] * sm([c.i.tE[ix(k, cr)] * K(d, k, m) for k in range(g.m)]) for d in range(g.d)])) for m, cr in at]))]

    def time(c):
        K = lambda d, k, m: -c.i.st[(d * g.m + k) * g.m + m]
        de = [{x: c.i.qE[ix(*x)] for x in at}]
        for k in range(1, g.o):
            de.append({(m, cr): sm([c.i.sE[d] * sm([de[-1][l, cr] * K(d, l, m) for l in range(g.m)]) for d in range(g.d)]) for m, cr in at})
        w = [_pow(c.i.dt, k + 1) * Fr(1, factorial(k + 1)) for k in range(g.o)]
        return [(f'time derivative {k}: Cauchy-Kowalevski procedure', band(*[eq(c.o.eE[k * n + ix(*x)], de[k][x]) for x in at])) for k in range(g.o)] + [
            ('time integrated degrees of freedom: integral of the Taylor series', band(*[eq(c.o.iE[ix(*x)], sm([w[k] * de[k][x] for k in range(g.o)])) for x in at]))]

    def tint(c):
        w = [_pow(c.i.dt, k + 1) * Fr(1, factorial(k + 1)) for k in range(g.o)]
        return [('integral of the Taylor series', band(*[eq(c.o.iE[j], sm([w[k] * c.i.eE[k * n + j] for k in range(g.o)])) for j in range(n)]))]

    def face(c, f, fa, sv):
        F = {(m, cr): sv * sm([c.i.tE[ix(k, cr)] * (c.i.fl if f < g.f else c.i.fn)[((f if f < g.f else f - g.f) * g.m + k) * g.mf + m] for k in range(g.m)]) for m in range(g.mf) for cr in range(g.cr)}
        return {(m, cr): sm([F[k, cr] * c.i.ft[(fa * g.mf + k) * g.m + m] for k in range(g.mf)]) for m, cr in at}

    def loce(c):
        fs = [face(c, f, f, c.i.sE[f]) for f in range(g.f)]
        return [('sum of the local face contributions', band(*[eq(c.o.dE[ix(*x)], c.i.dE[ix(*x)] + sm([f[x] for f in fs])) for x in at]))]

    def neie(fa, vid, fid):
        def ens(c):
            f = face(c, fmat(g, fa, vid, fid), fa, c.i.sE)
            return [('contribution of the neighboring element through the face', band(*[eq(c.o.dE[ix(*x)], c.i.dE[ix(*x)] + f[x]) for x in at]))]
        return ens
    st = lambda tr: arr(g.d * g.m * g.m, 'st', vals=stiff(g, tr) if g.o > 2 else None)
    us = [Unit(f'adv_volume_{g.name}', 'ader.cpp', 'w_vol', [arr(g.d, 'sE'), st(False), arr(n, 'tE'), arr(n, 'dE', 'io')], vole, cfg=g.cfg),
          Unit(f'adv_prediction_{g.name}', 'ader.cpp', 'w_tim', [S('dt', 'f64'), arr(g.d, 'sE'), st(True), arr(n, 'qE'), arr(g.o * n, 'eE', 'out'), arr(n, 'iE', 'out')], time, cfg=g.cfg),
          Unit(f'adv_integrate_{g.name}', 'ader.cpp', 'w_tin', [S('dt', 'f64'), arr(g.o * n, 'eE'), arr(n, 'iE', 'out')], tint, cfg=g.cfg),
          Unit(f'adv_surface_local_{g.name}', 'ader.cpp', 'w_loc', [arr(g.f, 'sE'), *flux(g), arr(n, 'tE'), arr(n, 'dE', 'io')], loce, cfg=g.cfg)]
    for fa, v, f in [(0, v, f) for v in range(max(1, g.fn // g.f)) for f in range(g.f)] + [(fa, 65535, 65535) for fa in range(g.f)] + [(g.f - 1, g.fn // g.f - 1, 0)]:
        us.append(Unit(f'adv_surface_neigh_{g.name}_{fa}_{v}_{f}', 'ader.cpp', 'w_nei', [S('fa', 'u16', val=fa), S('vId', 'u16', val=v), S('fId', 'u16', val=f), S('sE', 'f64'), *flux(g), arr(n, 'tE'),
                       arr(n, 'dE', 'io')], neie(fa, v, f), cfg=g.cfg))
    return us


ADV = [('line3', 'LINE', 3, 2, 0), ('quad2', 'QUAD4R', 2, 1, 0), ('tri3', 'TRIA3', 3, 2, 0), ('tet2', 'TET4', 2, 1, 0), ('hex2', 'HEX8R', 2, 2, 0)]


def units():
    us = []
    for x in CASES:
        g = G(*x)
        us += [vol(g), tim(g), taylor(g, True), taylor(g, False), loc(g)]
        us += [nei(g, 1, 0, 0, True)] + [nei(g, fa, v, f, False) for fa, v, f in [(g.f - 1, g.fn // g.f - 1, 1), (1, 65535, 65535)]]
        us += [nfi(g, 0, v, f) for v in range(g.fn // g.f) for f in range(g.f)] + [nfi(g, fa, 65535, 65535) for fa in range(g.f)]
        if g.rm:
            us += [sca(g), decay(g)]
    for x in ADV:
        us += adv_units(G(*x, adv=True))
    return us
