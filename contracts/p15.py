"""Finite volume scheme of the shallow water equations (src/impl/swe/solvers/FiniteVolume.hpp)."""
from fractions import Fraction as Fr
from vp.unit import Unit, S, A
from vp import terms as t
from vp.terms import implies, band, bor, ite, eq, forall, bnot
from contracts.p14 import jump, jump_app, callee
from contracts.p01 import modarrs

G = Fr(980665, 100000)
ND = {'LINE': 1, 'QUAD4R': 2, 'TRIA3': 2}
NF = {'LINE': 2, 'QUAD4R': 4, 'TRIA3': 3}
SP = {'INNER': 0, 'OUTFLOW': 105, 'REFLECTING': 101}
MAXN = 1 << 40


def cfg(el, sp=0, ncr=1):
    return dict(EQ='SWE', EL=el, ORDER=1, flags=[f'-DVP_CR={ncr}', f'-DVP_EL={el}', f'-DVP_SP={sp}'])


def face(c, fa, nd, kind, ncr=1, cr=0):
    """normal states left and right of the face after boundary conditions; wetness of both sides"""
    l, r = c.i.faEl[2 * fa], c.i.faEl[2 * fa + 1]
    n = [c.i.chars[fa * (nd + 1) + d] for d in range(nd)]

    def side(e):
        return c.i.dofs[e * (nd + 1) * ncr + cr], t.total([n[d] * c.i.dofs[(e * (nd + 1) + 1 + d) * ncr + cr] for d in range(nd)]), c.i.bath[e]
    L = side(l)
    if kind == 'INNER':
        R = side(r)
    elif kind == 'OUTFLOW':
        R = L
    else:
        R = (L[0], -L[1], L[2])
    return L, R


def face_spec(c, arr, fa, nd, kind, ncr=1, cr=0):
    (hL, mL, bL), (hR, mR, bR) = face(c, fa, nd, kind, ncr, cr)
    N = [arr[(4 * fa + k) * ncr + cr] for k in range(4)]       # left h, left hu, right h, right hu
    wl, wr = bL < 0, bR < 0
    e = []
    j0, j1 = jump_app(hL, hR, mL, mR, bL, bR, G)
    e.append(implies(band(wl, wr), band(eq(N[0] + N[2], j0), eq(N[1] + N[3], j1))))
    e.append(implies(bnot(wl), band(eq(N[0], 0), eq(N[1], 0))))
    e.append(implies(bnot(wr), band(eq(N[2], 0), eq(N[3], 0))))
    if kind == 'INNER':
        # lake at rest
        e.append(implies(band(wl, wr, eq(mL, 0), eq(mR, 0), eq(hL + bL, hR + bR)), band(*[eq(x, 0) for x in N])))
        # wet next to dry: a wall; no update for water at rest
        e.append(implies(band(wl, bnot(wr), eq(mL, 0)), band(eq(N[0], 0), eq(N[1], 0))))
        e.append(implies(band(wr, bnot(wl), eq(mR, 0)), band(eq(N[2], 0), eq(N[3], 0))))
        # no water crosses the wall: the flux of the wet side is turned back completely
        e.append(implies(band(wl, bnot(wr)), eq(N[0], -mL)))
        e.append(implies(band(wr, bnot(wl)), eq(N[2], mR)))
    elif kind == 'OUTFLOW':
        e.append(band(*[eq(x, 0) for x in N]))
    else:
        # reflecting wall: left state mirrored
        e.append(implies(band(wl, eq(mL, 0)), band(*[eq(x, 0) for x in N])))
        e.append(implies(wl, eq(N[0], -mL)))
    return e


LAB = {'INNER': ['flux jump is split between the two elements', 'dry left element gets no update', 'dry right element gets no update',
                 'lake at rest', 'wall right of resting water', 'wall left of resting water',
                 'no water crosses the wall to a dry right element', 'no water crosses the wall to a dry left element'],
       'OUTFLOW': ['flux jump is split', 'dry left element gets no update', 'dry right element gets no update', 'outflow: no update'],
       'REFLECTING': ['flux jump is split', 'dry left element gets no update', 'dry right element gets no update', 'reflecting: water at rest stays at rest', 'reflecting: no water crosses the wall']}


def nus_unit(el, kind, ncr=1):
    nd = ND[el]

    def req(c):
        F = (c.i.first, c.i.first + c.i.size)
        r = [c.i.first + c.i.size <= c.i.nFa,
             forall([F], lambda f: c.i.faEl[2 * f] < c.i.nEl),
             forall([(0, c.i.nEl)], lambda e: implies(c.i.bath[e] < 0, band(*[c.i.dofs[e * (nd + 1) * ncr + cr] > 0 for cr in range(ncr)])))]
        if kind == 'INNER':
            r.append(forall([F], lambda f: c.i.faEl[2 * f + 1] < c.i.nEl))
        return r

    def ens(c):
        F = (c.i.first, c.i.first + c.i.size)
        e = [(lab, forall([F], lambda f, k=k, cr=cr: face_spec(c, c.o.nus, f, nd, kind, ncr, cr)[k])) for cr in range(ncr) for k, lab in enumerate(LAB[kind])]
        for a, lab in ((0, 'below'), (1, 'above')):
            rg = (0, c.i.first) if a == 0 else (c.i.first + c.i.size, c.i.nFa)
            e.append((f'faces {lab} the range are untouched', forall([rg], lambda f: band(*[eq(c.o.nus[4 * ncr * f + k], c.i.nus[4 * ncr * f + k]) for k in range(4 * ncr)]))))
        return e

    def cands(c, lc):
        for rid, reg in modarrs(lc, 'R'):
            for q in lc.ivs():
                for cr in range(ncr):
                    for k in range(len(LAB[kind])):
                        yield (f'spec{k}', lambda v, q=q, k=k, cr=cr: forall([(c.i.first, v.phi(q.d))], lambda f: face_spec(c, v.arr(rid), f, nd, kind, ncr, cr)[k]))
            yield ('below', lambda v: forall([(0, c.i.first)], lambda f: band(*[eq(v.arr(rid)[4 * ncr * f + k], c.i.nus[4 * ncr * f + k]) for k in range(4 * ncr)])))
            yield ('above', lambda v: forall([(c.i.first + c.i.size, c.i.nFa)], lambda f: band(*[eq(v.arr(rid)[4 * ncr * f + k], c.i.nus[4 * ncr * f + k]) for k in range(4 * ncr)])))

    def sample(rng):
        ne, nf = rng.randint(1, 5), rng.randint(1, 6)
        first = rng.randint(0, nf)
        bath = [rng.choice([-1., -2., -.5, .5, 0.]) for _ in range(ne)]
        eta = rng.choice([0, 1])
        dofs = []
        for e in range(ne):
            dofs += [max(-bath[e], .1) if eta else rng.uniform(.2, 3) for _ in range(ncr)] + [0. if eta else rng.uniform(-6, 6) for _ in range(nd * ncr)]
        ch = []
        for f in range(nf):
            n = rng.choice([(1., 0.), (0., 1.), (.6, .8), (-.8, .6)])
            ch += list(n[:nd] if nd == 2 else (1.,)) + [rng.uniform(.5, 2)]
        return dict(first=first, size=rng.randint(0, nf - first), nEl=ne, nFa=nf, faEl=[rng.randrange(ne) for _ in range(2 * nf)],
                    chars=ch, dofs=dofs, bath=bath)
    return Unit(f'nusN_{el}_{kind}' + ('' if ncr == 1 else f'_{ncr}'), 'swe.cpp', 'w_nusN',
                [S('first', 'u64', 0, MAXN), S('size', 'u64', 0, MAXN), S('nEl', 'u64', 0, MAXN), S('nFa', 'u64', 0, MAXN),
                 A('faEl', 'u64', lambda c: 2 * c.i.nFa), A('chars', 'f64', lambda c: (nd + 1) * c.i.nFa),
                 A('dofs', 'f64', lambda c: ncr * (nd + 1) * c.i.nEl), A('bath', 'f64', lambda c: c.i.nEl), A('nus', 'f64', lambda c: 4 * ncr * c.i.nFa, 'io')],
                ens, req, cfg=cfg(el, SP[kind], ncr), inv=True, cands=cands, sample=sample, contracts={r'Fwave.*4nusN': callee(ncr)}, funs=dict(momentumJump=lambda *a: jump(*a)[1]))


def update_unit(el, ncr=1):
    nd, nf = ND[el], NF[el]

    def new(c, e, q, cr):
        """documented update: dofs -= dt/volume * sum over faces of area * net-update of the element's side (rotated by the normal)"""
        s = c.i.dofs[(e * (nd + 1) + q) * ncr + cr]
        for a in range(nf):
            fa = c.i.elFa[e * nf + a]
            sd = ite(eq(c.i.faEl[2 * fa], e), 0, 1)
            w = c.i.dT / c.i.charsEl[2 * e] * c.i.charsFa[(nd + 1) * fa + nd]
            n0 = ite(eq(c.i.faEl[2 * fa], e), c.i.nus[4 * fa * ncr + cr], c.i.nus[(4 * fa + 2) * ncr + cr])
            n1 = ite(eq(c.i.faEl[2 * fa], e), c.i.nus[(4 * fa + 1) * ncr + cr], c.i.nus[(4 * fa + 3) * ncr + cr])
            s = s - (w * n0 if q == 0 else w * c.i.charsFa[(nd + 1) * fa + q - 1] * n1)
        return s

    def req(c):
        E = (c.i.first, c.i.first + c.i.size)
        return [c.i.first + c.i.size <= c.i.nEl, forall([E, (0, nf)], lambda e, f: c.i.elFa[e * nf + f] < c.i.nFa),
                forall([E], lambda e: c.i.charsEl[2 * e] > 0)]

    def spec(c, arr, lo, hi, q, cr):
        return forall([(lo, hi)], lambda e: eq(arr[(e * (nd + 1) + q) * ncr + cr], new(c, e, q, cr)))

    def ens(c):
        e = [(f'quantity {q}', spec(c, c.o.dofs, c.i.first, c.i.first + c.i.size, q, cr)) for q in range(nd + 1) for cr in range(ncr)]
        same = lambda lo, hi: forall([(lo, hi)], lambda e: band(*[eq(c.o.dofs[e * (nd + 1) * ncr + q], c.i.dofs[e * (nd + 1) * ncr + q]) for q in range((nd + 1) * ncr)]))
        return e + [('elements below the range are untouched', same(0, c.i.first)), ('elements above the range are untouched', same(c.i.first + c.i.size, c.i.nEl))]

    def cands(c, lc):
        for rid, reg in modarrs(lc, 'R'):
            same = lambda v, lo, hi: forall([(lo, hi)], lambda e: band(*[eq(v.arr(rid)[e * (nd + 1) * ncr + q], c.i.dofs[e * (nd + 1) * ncr + q]) for q in range((nd + 1) * ncr)]))
            yield ('below', lambda v: same(v, 0, c.i.first))
            for z in lc.ivs():
                yield ('above', lambda v, z=z: same(v, v.phi(z.d), c.i.nEl))
                for q in range(nd + 1):
                    for cr in range(ncr):
                        yield (f'q{q}', lambda v, z=z, q=q, cr=cr: spec(c, v.arr(rid), c.i.first, v.phi(z.d), q, cr))

    def sample(rng):
        ne, n = rng.randint(1, 4), rng.randint(1, 6)
        first = rng.randint(0, ne)
        ch = []
        for f in range(n):
            m = rng.choice([(1., 0.), (0., 1.), (.6, .8), (-.8, .6)])
            ch += list(m[:nd] if nd == 2 else (1.,)) + [rng.uniform(.5, 2)]
        return dict(first=first, size=rng.randint(0, ne - first), nEl=ne, nFa=n, dT=rng.uniform(.1, 1), faEl=[rng.randrange(ne) for _ in range(2 * n)],
                    elFa=[rng.randrange(n) for _ in range(nf * ne)], charsFa=ch, charsEl=[rng.uniform(.5, 2) for _ in range(2 * ne)])
    return Unit(f'update_{el}' + ('' if ncr == 1 else f'_{ncr}'), 'swe.cpp', 'w_update',
                [S('first', 'u64', 0, MAXN), S('size', 'u64', 0, MAXN), S('nEl', 'u64', 0, MAXN), S('nFa', 'u64', 0, MAXN), S('dT', 'f64'),
                 A('faEl', 'u64', lambda c: 2 * c.i.nFa), A('elFa', 'u64', lambda c: nf * c.i.nEl), A('charsFa', 'f64', lambda c: (nd + 1) * c.i.nFa),
                 A('charsEl', 'f64', lambda c: 2 * c.i.nEl), A('nus', 'f64', lambda c: 4 * ncr * c.i.nFa), A('dofs', 'f64', lambda c: ncr * (nd + 1) * c.i.nEl, 'io')],
                ens, req, cfg=cfg(el, 0, ncr), inv=True, cands=cands, sample=sample)


def stats_unit(el, ncr=1):
    nd = ND[el]
    CFL = Fr(9, 10)

    def dt(c, e, cr):
        """CFL number times diameter over (absolute speed plus gravity wave speed) and dimensions"""
        h = c.i.dofs[e * (nd + 1) * ncr + cr]
        m = [c.i.dofs[(e * (nd + 1) + 1 + d) * ncr + cr] for d in range(nd)]
        hu = t.rsqrt(t.total([x * x for x in m]))
        return h, c.i.chars[2 * e + 1] / (t.rabs(hu / h) + t.rsqrt(G * h)) / nd * CFL

    def le(c, x, lo, hi, cr):
        def f(e):
            h, d = dt(c, e, cr)
            return implies(h > 0, x <= d)
        return forall([(lo, hi)], f)

    def wet(c, e, cr):
        return c.i.dofs[e * (nd + 1) * ncr + cr] > 0

    def req(c):
        return [c.i.nEl > 0, forall([(0, c.i.nEl)], lambda e: band(c.i.chars[2 * e + 1] > 0))]

    def ens(c):
        e = [(f'minimum time step respects the CFL condition of every wet element, run {cr}', le(c, c.o.dt[0], 0, c.i.nEl, cr)) for cr in range(ncr)]
        return e + [('positive', c.o.dt[0] > 0), ('dry elements do not restrict the time step',
                    implies(forall([(0, c.i.nEl)], lambda e: band(*[bnot(wet(c, e, cr)) for cr in range(ncr)])), c.o.dt[0] > 10 ** 300)),
                    ('minimum does not exceed maximum', c.o.dt[0] <= c.o.dt[2])]

    def cands(c, lc):
        for rid in lc.modified:
            reg = lc.st0.mem[rid]
        for q in lc.ivs():
            for p, get in lc.reals():
                for cr in range(ncr):
                    yield (f'min{cr}', lambda v, q=q, get=get, cr=cr: le(c, get(v), 0, v.phi(q.d), cr))
                yield ('dry', lambda v, q=q, get=get: implies(forall([(0, v.phi(q.d))], lambda e: band(*[bnot(wet(c, e, cr)) for cr in range(ncr)])), get(v) > 10 ** 300))
                for p2, g2 in lc.reals():
                    yield ('minmax', lambda v, q=q, a=get, b=g2: implies(v.phi(q.d) > 0, a(v) <= b(v)))
        for p, get in lc.reals():
            yield ('pos', lambda v, get=get: get(v) > 0)

    def sample(rng):
        n = rng.randint(1, 4)
        do = []
        dry = rng.random() < .2
        for e in range(n):
            do += [rng.choice([0., -1.]) if dry or rng.random() < .2 else rng.uniform(.1, 3) for _ in range(ncr)] + [rng.uniform(-9, 9) for _ in range(nd * ncr)]
        return dict(nEl=n, chars=[rng.uniform(.2, 2) for _ in range(2 * n)], dofs=do)
    return Unit(f'timeStep_{el}_{ncr}', 'swe.cpp', 'w_stats', [S('nEl', 'u64', 0, MAXN), A('chars', 'f64', lambda c: 2 * c.i.nEl),
                A('dofs', 'f64', lambda c: ncr * (nd + 1) * c.i.nEl), A('dt', 'f64', 3, 'out')], ens, req, cfg=cfg(el, 0, ncr), inv=True, cands=cands, sample=sample)


def units():
    return [nus_unit(el, k) for el in ('LINE', 'QUAD4R') for k in SP] + [update_unit(el) for el in ('LINE', 'QUAD4R', 'TRIA3')] + [stats_unit('LINE'), stats_unit('QUAD4R'), stats_unit('TRIA3'), stats_unit('LINE', 2), nus_unit('LINE', 'INNER', 2), update_unit('LINE', 2), update_unit('TRIA3', 2)]
