"""Orientation and numbering of the elements' vertices and faces (tools/edge_v/src/geom, normVesFas, getFaIdsAd, getVeIdsAd)."""
from fractions import Fraction as Fr
from itertools import permutations
from vp.unit import Unit, S, A
from vp import terms as t
from vp.terms import implies, band, bor, ite, eq, rabs, bnot, forall
from contracts.p01 import NMAX
from contracts.p02 import NV, NAME
from contracts.p03 import V, sub, det3, smp

# faces of the reference elements by vertices
FACES = {1: [(0, 1), (1, 2), (0, 2)], 2: [(0, 1), (1, 2), (2, 3), (0, 3)], 3: [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)]}
NF = {0: 2, 1: 3, 2: 4, 3: 4, 4: 6}


def distinct(xs):
    return [bnot(eq(a, b)) for k, a in enumerate(xs) for b in xs[:k]]


def simplex(ty):
    nv, nf = NV[ty], NF[ty]
    lex = sorted(FACES[ty])

    def det(c, p):
        d = [sub(V(c, p[k]), V(c, p[0])) for k in range(1, nv)]
        return det3(*d) if ty == 3 else d[0][0] * d[1][1] - d[0][1] * d[1][0]

    def req(c):
        if ty == 3:
            big = [bor(det(c, range(4)) > 1e-3, det(c, range(4)) < -1e-3)]
        else:
            big = [bnot(eq(det(c, range(3)), 0))]
        return big + [c.i.ve[k] < c.i.ve[k + 1] for k in range(nv - 1)]

    def ens(c):
        e = [('the vertices are permuted', band(*[bor(*[eq(c.o.ve[k], c.i.ve[j]) for j in range(nv)]) for k in range(nv)], *distinct(c.o.ve))),
             ('the vertices are in counter-clockwise order (positive determinant)',
              band(*[implies(band(*[eq(c.o.ve[k], c.i.ve[p[k]]) for k in range(nv)]), det(c, p) > 0) for p in permutations(range(nv))]))]
        for k in range(nf):
            opts = []
            for f in range(nf):
                same = band(*[bor(*[eq(c.o.ve[a], c.i.ve[b]) for b in lex[f]]) for a in FACES[ty][k]])
                opts.append(band(same, eq(c.o.fa[k], c.i.fa[f]), eq(c.o.el[k], c.i.el[f])))
            e.append((f'face and adjacent element {k} belong to the vertices of the reference face', bor(*opts)))
        return e

    def sample(rng):
        return dict(crds=smp(nv)(rng)['crds'], ve=sorted(rng.sample(range(50), nv)), fa=rng.sample(range(50), nf), el=rng.sample(range(50), nf))
    return Unit(f'normVesFas_{NAME[ty]}', 'geom.cpp', 'w_norm', [S('ty', 'i32', val=ty), A('crds', 'f64', 3 * nv), A('ve', 'u64', nv, 'io'), A('fa', 'u64', nf, 'io'), A('el', 'u64', nf, 'io')],
                ens, req, cfg=dict(tool='edge_v'), sample=sample)


def quad():
    cor = [(0, 0), (1, 0), (1, 1), (0, 1)]      # corners of the reference element

    def geo(c, p):
        """vertex p[k] is at corner k"""
        lo = [V(c, p[0])[d] for d in range(2)]
        hi = [V(c, p[2])[d] for d in range(2)]
        return band(*[lo[d] < hi[d] for d in range(2)], *[eq(V(c, p[k])[d], hi[d] if cor[k][d] else lo[d]) for k in (1, 3) for d in range(2)])

    def ens(c):
        e = []
        for p in permutations(range(4)):
            lex = sorted(tuple(sorted(p[a] for a in f)) for f in FACES[2])
            g = []
            for k in range(4):
                f = lex.index(tuple(sorted(p[a] for a in FACES[2][k])))
                g += [eq(c.o.ve[k], c.i.ve[p[k]]), eq(c.o.fa[k], c.i.fa[f]), eq(c.o.el[k], c.i.el[f])]
            e.append((f'vertices counter-clockwise from the lower left, faces and adjacent elements accordingly; input order {p}', implies(geo(c, p), band(*g))))
        return e

    def sample(rng):
        p = rng.sample(range(4), 4)
        lo, hi = [rng.uniform(-2, 0) for _ in range(2)], [rng.uniform(.1, 2) for _ in range(2)]
        crds = [0.] * 12
        for k in range(4):
            for d in range(2):
                crds[3 * p[k] + d] = hi[d] if cor[k][d] else lo[d]
        return dict(crds=crds, ve=sorted(rng.sample(range(50), 4)), fa=rng.sample(range(50), 4), el=rng.sample(range(50), 4))
    return Unit('normVesFas_quad4r', 'geom.cpp', 'w_norm', [S('ty', 'i32', val=2), A('crds', 'f64', 12), A('ve', 'u64', 4, 'io'), A('fa', 'u64', 4, 'io'), A('el', 'u64', 4, 'io')],
                ens, lambda c: [bor(*[geo(c, p) for p in permutations(range(4))])] + [c.i.ve[k] < c.i.ve[k + 1] for k in range(3)], cfg=dict(tool='edge_v'), sample=sample)


def elad(c, k, nf):
    el = c.i.el[k] + c.i.off
    return el, c.i.elFaEl[el * nf + c.i.fa[k]]


def faIdsAd(ty):
    nf = NF[ty]

    def req(c):
        F = (0, c.i.nFas)
        N = c.i.nEls

        def ok(k):
            el, ad = elad(c, k, nf)
            return band(el < N, c.i.fa[k] < nf, ad < N, bor(*[eq(c.i.elFaEl[ad * nf + j], el) for j in range(nf)]))
        return [forall([F], ok)]

    def post(c, k):
        el, ad = elad(c, k, nf)
        o = c.o.ids[k]
        return band(o < nf, eq(c.i.elFaEl[ad * nf + o], el))

    def ens(c):
        F = (0, c.i.nFas)
        return [('the face id addresses the adjacency back to the element', forall([F], lambda k: post(c, k)))]

    def cands(c, lc):
        ids = c.ex.rids['ids']

        def get(v, k):
            el, ad = elad(c, k, nf)
            o = v.arr(ids)[k]
            return band(o < nf, eq(c.i.elFaEl[ad * nf + o], el))
        for q in lc.ivs():
            yield ('done', lambda v, q=q: forall([(0, v.phi(q.d))], lambda k: get(v, k)))
    return Unit(f'getFaIdsAd_{NAME[ty]}', 'geom.cpp', 'w_faIdsAd',
                [S('ty', 'i32', val=ty), S('nFas', 'u64', 0, NMAX), S('off', 'u64', 0, NMAX), A('el', 'u64', lambda c: c.i.nFas), A('fa', 'u16', lambda c: c.i.nFas),
                 A('elFaEl', 'u64', lambda c: c.i.nEls * nf), A('ids', 'u16', lambda c: c.i.nFas, 'out'), S('nEls', 'u64', 0, NMAX)], ens, req, cfg=dict(tool='edge_v'), inv=True, cands=cands,
                sample=mesh(nf))


def mesh(nf, nv=0, tet=False):
    def f(rng):
        n = rng.randint(2, 6)
        adj = [[None] * nf for _ in range(n)]
        for a in range(n):
            for i in range(nf):
                b = rng.randrange(n)
                j = rng.randrange(nf)
                if adj[a][i] is None and adj[b][j] is None and a != b:
                    adj[a][i], adj[b][j] = b, a
        ok = [(a, i) for a in range(n) for i in range(nf) if adj[a][i] is not None]
        m = rng.randint(0, 4) if ok else 0
        ps = [rng.choice(ok) for _ in range(m)]
        off = min([p[0] for p in ps], default=0)
        off = rng.randint(0, off)
        big = 2 ** 64 - 1
        d = dict(nEls=n, nFas=m, off=off, el=[p[0] - off for p in ps], fa=[p[1] for p in ps], elFaEl=[x if x is not None else big for r in adj for x in r])
        return d
    return f


# vertices of the faces of a tetrahedron in the order seen by the neighbor
NB = [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]


def veIdsAd(periodic, ty=3):
    nf = NF[ty]
    nv = NV[ty]

    def first(c, k):
        """dominant vertex of the element's face: position in elVe"""
        el, ad = elad(c, k, nf)
        return t.iite(c.i.fa[k] <= 2, el * 4, el * 4 + 1)

    def back(c, ad, el):
        """face of the neighbor at the element"""
        r = 3
        for j in (2, 1, 0):
            r = t.iite(eq(c.i.elFaEl[ad * nf + j], el), j, r)
        return r

    def nbPos(f, o):
        r = NB[3][2]
        for a in range(4):
            for b in range(3):
                r = t.iite(band(eq(f, a), eq(o, b)), NB[a][b], r)
        return r

    def req(c):
        F = (0, c.i.nFas)
        N = c.i.nEls

        def ok(k):
            el, ad = elad(c, k, nf)
            return band(el < N, c.i.fa[k] < nf, ad < N, bor(*[eq(c.i.elFaEl[ad * nf + j], el) for j in range(nf)]))

        def shared(k):
            # the dominant vertex is one of the vertices of the neighbor's face, the vertices of an element are distinct
            el, ad = elad(c, k, nf)
            f = back(c, ad, el)
            x = first(c, k)
            v = [c.i.elVe[ad * 4 + j] for j in range(4)]
            return band(bor(*[eq(c.i.elVe[ad * 4 + nbPos(f, j)], c.i.elVe[x]) for j in range(3)]), *distinct(v))
        return [forall([F], ok)] + ([forall([F], shared)] if ty == 3 else [])

    def good(c, ids, k):
        el, ad = elad(c, k, nf)
        o = ids[k]
        if ty != 3:
            return eq(o, 0)
        f = back(c, ad, el)
        return band(o < 3, eq(c.i.elVe[ad * 4 + nbPos(f, o)], c.i.elVe[first(c, k)]))

    def ens(c):
        F = (0, c.i.nFas)
        return [('the vertex id selects the vertex of the neighbor that is the dominant vertex of the face', forall([F], lambda k: good(c, c.o.ids, k)))]

    def cands(c, lc):
        ids = c.ex.rids['ids']
        for q in lc.ivs():
            yield ('done', lambda v, q=q: forall([(0, v.phi(q.d))], lambda k: good(c, v.arr(ids), k)))

    def sample(rng):
        x = mesh(nf)(rng)
        n = x['nEls']
        big = 2 ** 64 - 1
        ve = [[None] * nv for _ in range(n)]
        for e in range(n):
            ve[e] = rng.sample(range(4 * n, 8 * n), nv)
        keep = []
        if ty == 3:
            done = set()
            for e, f in zip(x['el'], x['fa']):
                e += x['off']
                a = x['elFaEl'][e * 4 + f]
                if (e, a) in done or (a, e) in done or e in [q for p in done for q in p] or a in [q for p in done for q in p]:
                    continue
                done.add((e, a))
                b = [j for j in range(4) if x['elFaEl'][a * 4 + j] == e][0]
                o = rng.randrange(3)
                ve[a][NB[b][o]] = ve[e][0 if f <= 2 else 1]
                keep.append((e, f))
            x['nFas'] = len(keep)
            x['el'] = [e - x['off'] for e, f in keep]
            x['fa'] = [f for e, f in keep]
        x['elVe'] = [v for r in ve for v in r]
        return x
    return Unit(f'getVeIdsAd_{NAME[ty]}', 'geom.cpp', 'w_veIdsAd',
                [S('ty', 'i32', val=ty), S('nFas', 'u64', 0, NMAX), S('off', 'u64', 0, NMAX), A('el', 'u64', lambda c: c.i.nFas), A('fa', 'u16', lambda c: c.i.nFas),
                 A('elVe', 'u64', lambda c: c.i.nEls * nv), A('elFaEl', 'u64', lambda c: c.i.nEls * nf), A('ids', 'u16', lambda c: c.i.nFas, 'out'), S('nEls', 'u64', 0, NMAX)],
                ens, req, cfg=dict(tool='edge_v'), inv=True, cands=cands, sample=sample)


def periodic():
    """coordinates are given: the dominant vertex is found through two equal coordinates if it is not shared"""
    TOL = Fr(1e-6)

    def crd(c, v, d):
        return c.i.crds[v * 3 + d]

    def neq(c, v, w):
        a, b, e = [t.iite(rabs(crd(c, v, d) - crd(c, w, d)) < TOL, 1, 0) for d in range(3)]
        return a + b + e

    def dist(c, v, w):
        return t.total([(crd(c, v, d) - crd(c, w, d)) * (crd(c, v, d) - crd(c, w, d)) for d in range(3)])

    def req(c):
        F = (0, c.i.nFas)
        N = c.i.nEls

        def ok(k):
            el, ad = elad(c, k, 4)
            return band(el < N, c.i.fa[k] < 4, ad < N, bor(*[eq(c.i.elFaEl[ad * 4 + j], el) for j in range(4)]))
        return [forall([F], ok), forall([(0, c.i.nEls), (0, 4)], lambda e, j: c.i.elVe[e * 4 + j] < c.i.nVes),
                forall([F], lambda k: band(*distinct([c.i.elVe[elad(c, k, 4)[1] * 4 + j] for j in range(4)])))]

    def good(c, ids, k):
        el, ad = elad(c, k, 4)
        o = ids[k]
        f = 3
        for j in (2, 1, 0):
            f = t.iite(eq(c.i.elFaEl[ad * 4 + j], el), j, f)
        d = c.i.elVe[t.iite(c.i.fa[k] <= 2, el * 4, el * 4 + 1)]
        v = [c.i.elVe[ad * 4 + j] for j in range(4)]
        alts = []
        for b in range(4):
            for q in range(3):
                x = v[NB[b][q]]
                sh = eq(x, d)
                per = band(*[bnot(eq(y, d)) for y in v], eq(neq(c, d, x), 2), *[implies(eq(neq(c, d, y), 2), dist(c, d, y) <= dist(c, d, x)) for y in v])
                alts.append(band(eq(f, b), eq(o, q), bor(sh, per)))
        return bor(*alts)

    def ens(c):
        return [('the selected vertex is the dominant vertex or its most distant periodic partner', forall([(0, c.i.nFas)], lambda k: good(c, c.o.ids, k)))]

    def cands(c, lc):
        ids = c.ex.rids['ids']
        for q in lc.ivs():
            yield ('done', lambda v, q=q: forall([(0, v.phi(q.d))], lambda k: good(c, v.arr(ids), k)))

    def sample(rng):
        x = veIdsAd(False).sample(rng)
        n = x['nEls']
        m = 4 * n
        x['elVe'] = [v for _ in range(n) for v in rng.sample(range(m), 4)]
        x['nVes'] = m
        x['crds'] = [float(rng.randint(0, 2)) for _ in range(3 * m)]
        return x
    return Unit('getVeIdsAd_periodic', 'geom.cpp', 'w_veIdsAdP',
                [S('ty', 'i32', val=3), S('nFas', 'u64', 0, NMAX), S('off', 'u64', 0, NMAX), A('el', 'u64', lambda c: c.i.nFas), A('fa', 'u16', lambda c: c.i.nFas),
                 A('elVe', 'u64', lambda c: c.i.nEls * 4), A('elFaEl', 'u64', lambda c: c.i.nEls * 4), A('crds', 'f64', lambda c: c.i.nVes * 3),
                 A('ids', 'u16', lambda c: c.i.nFas, 'out'), S('nEls', 'u64', 0, NMAX), S('nVes', 'u64', 0, NMAX)],
                ens, req, cfg=dict(tool='edge_v'), inv=True, cands=cands, sample=sample, allow_abort=True)


def units():
    return [simplex(1), simplex(3), quad()] + [faIdsAd(k) for k in range(5)] + [veIdsAd(False), veIdsAd(False, 1)]
