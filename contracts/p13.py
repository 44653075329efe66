"""Linear slip weakening friction (src/impl/seismic/solvers/FrictionLaws.hpp)."""
from fractions import Fraction as Fr
from vp.unit import Unit, S, A
from vp import terms as t
from vp.terms import implies, band, ite, eq, rsqrt, rabs, bnot, rmax


def fric(nd, ncr, lEqM, sf):
    ns = nd - 1
    nq = 5 if nd == 2 else 9
    sh = [2] if nd == 2 else [3, 5]
    ve = [4] if nd == 2 else [7, 8]

    def g(c, k):
        G = lambda a, i: a[i * ncr + k]
        bg = c.i.bg[sf * (1 + nd) * ncr:(sf + 1) * (1 + nd) * ncr]
        d = dict(mus=G(c.i.gl, 0), mud=G(c.i.gl, 1), dci=G(c.i.gl, 2), sn0=G(bg, 0), co0=G(bg, 1), ss0=[G(bg, 2 + j) for j in range(ns)],
                 ms=[G(c.i.ms, q) for q in range(nq)], muf=c.i.muf[sf * ncr + k], dd=[c.i.dd[(sf * ns + j) * ncr + k] for j in range(ns)])
        st = d['muf'] * (d['sn0'] + d['ms'][0]) + d['co0']
        d['st'] = ite(st < 0, -st, Fr(0))
        d['tot'] = [d['ss0'][j] + d['ms'][sh[j]] for j in range(ns)]
        d['mag'] = rabs(d['tot'][0]) if ns == 1 else rsqrt(d['tot'][0] * d['tot'][0] + d['tot'][1] * d['tot'][1])
        return d

    def req(c):
        r = [c.i.dt >= 0, c.i.fa[0] > 0, c.i.fa[1] > 0]
        for k in range(ncr):
            d = g(c, k)
            r += [d['mus'] >= d['mud'], d['mud'] >= 0, d['dci'] >= 0]
            r += [c.i.dd[(s * ns + j) * ncr + k] >= 0 for s in range(2) for j in range(ns)]
        return r

    def ens(c):
        e = []
        M, P = (c.o.msL, c.o.msR) if lEqM else (c.o.msR, c.o.msL)
        for k in range(ncr):
            d = g(c, k)
            G = lambda a, i: a[i * ncr + k]
            per = c.o.per[k]
            fail = d['mag'] > d['st']
            tr = [G(c.o.tr, j) for j in range(ns)]
            sr = [G(c.o.sr, j) for j in range(ns)]
            e += [('strength follows the Coulomb law', eq(c.o.st[k], d['st'])),
                  ('the fault fails iff the shear stress exceeds the strength', eq(per, ite(fail, 1, 0))),
                  ('locked: traction is the unperturbed total stress', implies(bnot(fail), band(*[eq(tr[j], d['tot'][j]) for j in range(ns)]))),
                  ('failing: shear traction acts in direction of the total shear stress with the magnitude of the strength',
                   implies(fail, band(*[eq(tr[j] * d['mag'], d['st'] * d['tot'][j]) for j in range(ns)]))),
                  ('shear stress is continuous across the fault and consistent with the traction',
                   band(*[band(eq(G(M, sh[j]), G(P, sh[j])), eq(G(M, sh[j]) + d['ss0'][j], tr[j])) for j in range(ns)])),
                  ('only shear stresses and fault-parallel velocities are perturbed',
                   band(*[band(eq(G(M, q), d['ms'][q]), eq(G(P, q), d['ms'][q])) for q in range(nq) if q not in sh + ve])),
                  ('minus-side velocity changes by impedance times stress change',
                   band(*[eq(G(M, ve[j]), d['ms'][ve[j]] - c.i.fa[0] * (tr[j] - d['tot'][j])) for j in range(ns)])),
                  ('plus-side velocity changes by impedance times stress change',
                   band(*[eq(G(P, ve[j]), d['ms'][ve[j]] + c.i.fa[1] * (tr[j] - d['tot'][j])) for j in range(ns)])),
                  ('slip rate is the velocity jump', band(*[eq(sr[j], G(P, ve[j]) - G(M, ve[j])) for j in range(ns)])),
                  ('locked fault does not slip', implies(bnot(fail), band(*[eq(x, 0) for x in sr]))),
                  ('slip accumulates the absolute slip rate', band(*[eq(c.o.dd[(sf * ns + j) * ncr + k], d['dd'][j] + rabs(sr[j]) * c.i.dt) for j in range(ns)])),
                  ('friction never drops below the dynamic coefficient', c.o.muf[sf * ncr + k] >= d['mud']),
                  ('friction never exceeds the static coefficient', c.o.muf[sf * ncr + k] <= d['mus'])]
            dd = [c.o.dd[(sf * ns + j) * ncr + k] for j in range(ns)]
            da = dd[0] if ns == 1 else rsqrt(dd[0] * dd[0] + dd[1] * dd[1])
            e.append(('friction weakens linearly with slip', eq(c.o.muf[sf * ncr + k], rmax(d['mud'], d['mus'] - (d['mus'] - d['mud']) * d['dci'] * da))))
            o = 1 - sf
            e.append(('the other sub-face keeps its state', band(eq(c.o.muf[o * ncr + k], c.i.muf[o * ncr + k]),
                                                               *[eq(c.o.dd[(o * ns + j) * ncr + k], c.i.dd[(o * ns + j) * ncr + k]) for j in range(ns)])))
        return e

    def sample(rng):
        u = rng.uniform
        return dict(dt=u(0, 1), fa=[u(.1, 2), u(.1, 2)], gl=[u(.5, 1) for _ in range(ncr)] + [u(0, .5) for _ in range(ncr)] + [u(0, 2) for _ in range(ncr)],
                    bg=[x for _ in range(2) for x in [u(-3, .5) for _ in range(ncr)] + [rng.choice([0., u(-.3, .3)]) for _ in range(ncr)]
                        + [rng.choice([0., u(-3, 3)]) for _ in range(ns * ncr)]],
                    ms=[u(-3, 3) for _ in range(nq * ncr)], dd=[u(0, 1) for _ in range(2 * ns * ncr)], muf=[u(0, 1) for _ in range(2 * ncr)])
    return Unit(f'linSlipWeak{nd}d_{ncr}_{"LM" if lEqM else "RM"}_{sf}', 'friction.cpp', f'w_fric{nd}',
                [S('dt', 'f64'), S('lEqM', 'bool', val=int(lEqM)), S('sf', 'u16', val=sf), A('fa', 'f64', 2), A('gl', 'f64', 3 * ncr), A('bg', 'f64', 2 * (1 + nd) * ncr),
                 A('ms', 'f64', nq * ncr), A('dd', 'f64', 2 * ns * ncr, 'io'), A('muf', 'f64', 2 * ncr, 'io'), A('st', 'f64', ncr, 'out'),
                 A('sr', 'f64', ns * ncr, 'out'), A('tr', 'f64', ns * ncr, 'out'), A('msL', 'f64', nq * ncr, 'out'), A('msR', 'f64', nq * ncr, 'out'),
                 A('per', 'u8', ncr, 'out')],
                ens, req, cfg=dict(EL='TRIA3' if nd == 2 else 'TET4', flags=[f'-DVP_CR={ncr}']), sample=sample, opts=dict(check_div=False))


ASSUMPTIONS = ['friction: the quotient strength/shear is computed but discarded on locked faults; division by zero there is not an obligation']


def units():
    return [fric(nd, ncr, l, s) for nd in (2, 3) for ncr, l, s in ((1, True, 0), (1, False, 1), (2, True, 1), (2, False, 0))]
