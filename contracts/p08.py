"""Reference and physical coordinates, Jacobians, faces (linalg/Mappings.hpp, linalg/Shape.hpp, linalg/Matrix.h)."""
from fractions import Fraction as Fr
from itertools import permutations
from vp.unit import Unit, S, A
from vp import terms as t
from vp.terms import implies, band, bor, ite, eq, rabs, bnot

CFG = dict(EL='TET4', EQ='SEISMIC', ORDER=2, PRECISION=64)
SRC = 'mappings.cpp'
TOL = Fr(0.000000001)
# reference vertices
REF = {'line': [(0,), (1,)], 'quad4r': [(0, 0), (1, 0), (1, 1), (0, 1)], 'tria3': [(0, 0), (1, 0), (0, 1)],
       'hex8r': [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)],
       'tet4': [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]}
# vertices of the faces
FAVE = {'line': [(0,), (1,)], 'quad4r': [(0, 1), (1, 2), (2, 3), (3, 0)], 'tria3': [(0, 1), (1, 2), (2, 0)],
        'hex8r': [(0, 3, 2, 1), (0, 1, 5, 4), (1, 2, 6, 5), (3, 7, 6, 2), (0, 4, 7, 3), (4, 5, 6, 7)], 'tet4': [(0, 2, 1), (0, 1, 3), (0, 3, 2), (1, 2, 3)]}
SIMPLEX = ('tria3', 'tet4')
ID = {'line': 1, 'quad4r': 2, 'tria3': 3, 'hex8r': 4, 'tet4': 5}
OPP = {0: 5, 5: 0, 1: 3, 3: 1, 2: 4, 4: 2}


def nd(el):
    return len(REF[el][0])


def nodal(el, xi):
    """nodal basis: one at its own vertex, zero at the others; (multi-)linear"""
    r = []
    for v in REF[el]:
        if el in SIMPLEX:
            r.append(1 - t.total(list(xi)) if sum(v) == 0 else xi[v.index(1)])
        else:
            w = Fr(1)
            for x, k in zip(xi, v):
                w = w * (x if k else 1 - x)
            r.append(w)
    return r


def vert(el, ves, v):
    n = len(REF[el])
    return [ves[d * n + v] for d in range(nd(el))]


def phys(el, ves, xi):
    w = nodal(el, xi)
    n = len(REF[el])
    return [t.total([ves[d * n + v] * w[v] for v in range(n)]) for d in range(nd(el))]


def det(m):
    if len(m) == 1:
        return m[0][0]
    return t.total([(-1) ** j * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]]) for j in range(len(m))])


def edges(el, ves):
    """vectors along the reference axes"""
    o = vert(el, ves, 0)
    return [[a - b for a, b in zip(vert(el, ves, v), o)] for v in (REF[el].index(tuple(int(i == d) for i in range(nd(el)))) for d in range(nd(el)))]


def paral(el, ves):
    """parallelograms and parallelepipeds"""
    e = edges(el, ves)
    r = []
    for v, c in enumerate(REF[el]):
        if sum(c) > 1:
            for d in range(nd(el)):
                r.append(eq(vert(el, ves, v)[d], vert(el, ves, 0)[d] + t.total([e[k][d] for k in range(nd(el)) if c[k]])))
    return r


def rect(el, ves):
    """axis-aligned with positive extents"""
    e = edges(el, ves)
    r = [e[i][i] > TOL for i in range(nd(el))]
    for v, c in enumerate(REF[el]):
        for d in range(nd(el)):
            r.append(eq(vert(el, ves, v)[d], vert(el, ves, 0)[d] + (e[d][d] if c[d] else 0)))
    return r


def rves(el, rng, box=False):
    n, m = nd(el), len(REF[el])
    if el in SIMPLEX and not box:
        while True:
            v = [rng.uniform(-2, 2) for _ in range(n * m)]
            if abs(det(edges(el, v))) > .2:
                if det(edges(el, v)) < 0:
                    for d in range(n):
                        v[d * m + 1], v[d * m + 2] = v[d * m + 2], v[d * m + 1]
                return v
    o = [rng.choice([0., .5, -1.]) for _ in range(n)]
    h = [rng.choice([.5, 1., 2.]) for _ in range(n)]
    return [o[d] + h[d] * REF[el][v][d] for d in range(n) for v in range(m)]


def uref(el):
    n, m = nd(el), len(REF[el])

    def ens(c):
        p = phys(el, c.i.ves, c.i.xi)
        return [(f'physical coordinate {d} is the nodal interpolation of the vertices', eq(c.o.o[d], p[d])) for d in range(n)]
    return Unit(f'refToPhy_{el}', SRC, f'w_refToPhy_{el}', [A('ves', 'f64', n * m), A('xi', 'f64', n), A('o', 'f64', n, 'out')], ens, cfg=CFG)


def uinv(el, fwd):
    n, m = nd(el), len(REF[el])
    # determinant the code divides by
    def req(c):
        if el == 'tria3':
            return [det(edges(el, c.i.ves)) > TOL]
        if el == 'tet4':
            return [bnot(eq(det(edges(el, c.i.ves)), Fr(0)))]
        return rect(el, c.i.ves)

    def ens(c):
        if fwd:
            return [(f'physical coordinate {d} is the one of the reference point', eq(c.o.y[d], c.i.x[d])) for d in range(n)]
        return [(f'reference coordinate {d} is recovered', eq(c.o.y[d], c.i.xi[d])) for d in range(n)]
    a, b = ('x', 'xi') if fwd else ('xi', 'x')
    return Unit(f'{"phyToRef" if fwd else "refToPhyToRef"}_{el}', SRC, f'w_{"phyToRef" if fwd else "refToPhyToRef"}_{el}',
                [A('ves', 'f64', n * m), A(a, 'f64', n), A(b, 'f64', n, 'out'), A('y', 'f64', n, 'out')], ens, req, cfg=CFG,
                sample=lambda rng: {'ves': rves(el, rng), a: [rng.uniform(0, 1) for _ in range(n)]})


def ujac(el):
    n, m = nd(el), len(REF[el])

    def ens(c):
        e = edges(el, c.i.ves)
        return [(f'derivative of coordinate {k} in reference direction {d}', eq(c.o.o[d * n + k], e[d][k])) for d in range(n) for k in range(n)]

    # rectangular elements: the mapping is affine, its derivative is the one at the origin
    return Unit(f'jacobian_{el}', SRC, f'w_jac_{el}', [A('ves', 'f64', n * m), A('xi', 'f64', n), A('o', 'f64', n * n, 'out')], ens,
                lambda c: paral(el, c.i.ves) if el not in SIMPLEX else [], cfg=CFG, sample=lambda rng: {'ves': rves(el, rng), 'xi': [rng.random() for _ in range(n)]})


def facept(el, fa, pt):
    """point of a face in reference coordinates"""
    fv = [REF[el][v] for v in FAVE[el][fa]]
    if len(fv) == 1:
        return [Fr(x) for x in fv[0]]
    dirs = {2: [1], 3: [1, 2], 4: [1, 3]}[len(fv)]
    return [Fr(fv[0][d]) + t.total([pt[k] * (fv[j][d] - fv[0][d]) for k, j in enumerate(dirs)]) for d in range(nd(el))]


def uface(el):
    n, nf = nd(el), len(FAVE[el])
    return Unit(f'face_{el}', SRC, f'w_face_{el}', [A('pt', 'f64', max(n - 1, 1)), A('o', 'f64', n * nf, 'out')],
                lambda c: [(f'face {f}: point in the span of the vertices of the face', band(*[eq(c.o.o[f * n + d], facept(el, f, c.i.pt)[d]) for d in range(n)]))
                           for f in range(nf)], cfg=CFG)


def unei(el, fl, fn, ve):
    n, m = nd(el), len(REF[el])
    fvl, fvn = FAVE[el][fl], FAVE[el][fn]
    k = len(fvl)
    # local vertex 0 of the face is vertex ve of the neighbor's face; opposite orientation
    match = {fvl[j]: fvn[(ve - j) % k] for j in range(k)}

    def req(c):
        return [eq(c.i.vesN[d * m + match[v]], c.i.vesL[d * m + v]) for v in match for d in range(n)]

    def ens(c):
        return [(f'coordinate {d}: same physical point from both elements', eq(c.o.xL[d], c.o.xN[d])) for d in range(n)]

    def sample(rng):
        a, b = rves(el, rng, True), rves(el, rng, True)
        for v in match:
            for d in range(n):
                b[d * m + match[v]] = a[d * m + v]
        return dict(vesL=a, vesN=b, pt=[rng.random() / 2 for _ in range(n - 1)])

    def req2(c):
        return req(c) + (paral(el, c.i.vesL) + paral(el, c.i.vesN) if el == 'hex8r' else [])

    def sample2(rng):
        a = rves(el, rng, True)
        b = list(a)
        ax = {0: 2, 5: 2, 1: 1, 3: 1, 2: 0, 4: 0}[fl]
        h = [abs(a[ax * m] - a[ax * m + v]) for v in range(m)]
        for v in range(m):
            b[ax * m + v] += (-1 if fl in (0, 1, 4) else 1) * max(h)
        return dict(vesL=a, vesN=b, pt=[rng.random() / 2 for _ in range(n - 1)])
    return Unit(f'nei_{el}_{fl}{fn}{ve}', SRC, f'w_nei_{el}',
                [S('faL', 'u16', val=fl), S('faN', 'u16', val=fn), S('ve', 'u16', val=ve if n == 3 else 65535), A('vesL', 'f64', n * m), A('vesN', 'f64', n * m), A('pt', 'f64', n - 1),
                 A('xL', 'f64', n, 'out'), A('xN', 'f64', n, 'out')], ens, req2, cfg=CFG, sample=sample2 if el == 'hex8r' else sample, runs=10)


def umap(el, fl, fn):
    """mapFaceCoords: reference point of the local element to the one of the neighbor"""
    n = nd(el)

    def req(c):
        if n == 2:
            f = facept(el, fl, [c.i.p])
            return [0 <= c.i.p, c.i.p <= 1, eq(c.i.pt[0], f[0]), eq(c.i.pt[1], f[1]), eq(c.i.pt[2], Fr(0))]
        f = facept(el, fl, [c.i.p, c.i.q])
        return [0 <= c.i.p, c.i.p <= 1, 0 <= c.i.q, c.i.q <= 1] + [eq(c.i.pt[d], f[d]) for d in range(3)]

    def ens(c):
        f = facept(el, fn, [1 - c.i.p] if n == 2 else [c.i.q, c.i.p]) + ([Fr(0)] if n == 2 else [])
        return [(f'reference coordinate {d} of the neighbor', eq(c.o.o[d], f[d])) for d in range(3)]

    def sample(rng):
        p, q = rng.random(), rng.random()
        f = [float(x) for x in facept(el, fl, [p, q][:n - 1])] + [0.] * (3 - n)
        return dict(pt=f, p=p, q=q)
    return Unit(f'mapFace_{el}_{fl}{fn}', SRC, 'w_mapFace', [S('ty', 'u32', val=ID[el]), S('faL', 'u16', val=fl), S('faN', 'u16', val=fn), A('pt', 'f64', 3),
                                                            A('o', 'f64', 3, 'out'), S('p', 'f64'), S('q', 'f64')], ens, req, cfg=CFG, sample=sample, runs=10)


def udet(n):
    return Unit(f'det_{n}', SRC, f'w_det{n}', [A('m', 'f64', n * n)],
                lambda c: [('determinant', eq(c.ret, det([[c.i.m[i * n + j] for j in range(n)] for i in range(n)])))], cfg=CFG, ret='f64')


def uminv(n):
    def ens(c):
        m, o = c.i.m, c.o.o
        return [(f'entry ({i},{j}) of the product with the inverse', eq(t.total([m[i * n + k] * o[k * n + j] for k in range(n)]), Fr(int(i == j)))) for i in range(n) for j in range(n)] + \
               [(f'entry ({i},{j}) of the product of the inverse with the matrix', eq(t.total([o[i * n + k] * m[k * n + j] for k in range(n)]), Fr(int(i == j)))) for i in range(n) for j in range(n)]
    return Unit(f'inv_{n}', SRC, f'w_inv{n}', [A('m', 'f64', n * n), A('o', 'f64', n * n, 'out')], ens,
                lambda c: [rabs(det([[c.i.m[i * n + j] for j in range(n)] for i in range(n)])) > TOL], cfg=CFG)


def units():
    u = []
    for el in REF:
        u += [uref(el), ujac(el), uface(el)]
        if el != 'line':
            u += [uinv(el, True), uinv(el, False)]
    for el in ('quad4r', 'tria3'):
        for fl in range(len(FAVE[el])):
            for fn in range(len(FAVE[el])):
                u += [unei(el, fl, fn, 1), umap(el, fl, fn)]
    for fl, fn in OPP.items():
        u += [unei('hex8r', fl, fn, 0), umap('hex8r', fl, fn)]
    for fl in range(4):
        for fn in range(4):
            for ve in range(3):
                u.append(unei('tet4', fl, fn, ve))
    return u + [udet(n) for n in (2, 3, 4)] + [uminv(n) for n in (2, 3)]
