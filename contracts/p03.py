"""Geometry of the mesh tool (tools/edge_v/src/geom)."""
from vp.unit import Unit, S, A
from vp import terms as t
from vp.terms import implies, band, bor, ite, eq, rabs, bnot, rmax, rsqrt
from contracts.p02 import NV, NAME


def V(c, k):
    return [c.i.crds[3 * k + d] for d in range(3)]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return t.total([x * y for x, y in zip(a, b)])


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def det3(a, b, c):
    return dot(a, cross(b, c))


def ext(c, d, nv):
    """extent of the vertices in dimension d"""
    xs = [c.i.crds[3 * k + d] for k in range(nv)]
    return t.rmax_all(xs) - t.rmin_all(xs) if hasattr(t, 'rmax_all') else mx(xs) - mn(xs)


def mx(xs):
    r = xs[0]
    for x in xs[1:]:
        r = rmax(r, x)
    return r


def mn(xs):
    r = xs[0]
    for x in xs[1:]:
        r = ite(x < r, x, r)
    return r


def smp(nv, flat=False, box=False):
    def f(rng):
        c = [round(rng.uniform(-2, 2), 2) for _ in range(3 * nv)]
        if flat:
            for k in range(nv):
                c[3 * k + 2] = 0.
        if box:
            p = list(range(nv)) if box == 'ord' else rng.sample(range(nv), nv)
            lo, d = [rng.uniform(-1, 1) for _ in range(3)], [rng.uniform(.1, 2) for _ in range(3)]
            for k in range(nv):
                b = [(p[k] ^ (p[k] >> 1)) & 1, (p[k] >> 1) & 1, p[k] >> 2]
                for x in range(3):
                    c[3 * k + x] = lo[x] + b[x] * d[x]
        return dict(crds=c, pt=[rng.uniform(-3, 3) for _ in range(3)])
    return f


def nondeg(ty, flat=False):
    def r(c):
        if ty == 0:
            return [bor(bnot(eq(V(c, 0)[0], V(c, 1)[0])), bnot(eq(V(c, 0)[1], V(c, 1)[1])))]
        if ty == 3:
            return [bnot(eq(det3(*[sub(V(c, k), V(c, 0)) for k in (1, 2, 3)]), 0))]
        n = cross(sub(V(c, 1), V(c, 0)), sub(V(c, 2), V(c, 0)))
        x = [bor(*[bnot(eq(q, 0)) for q in n])]
        if flat:
            x += [eq(V(c, k)[2], 0) for k in range(NV[ty])]
        return x
    return r


def box(nd, nv):
    return lambda c: [bnot(eq(ext(c, d, nv), 0)) for d in range(nd)]


def ghost_ext(nv, nd):
    """ghost extents, defined by the precondition: an upper bound of all distances that is attained"""
    def reqx(c):
        r = []
        for d in range(nd):
            e = getattr(c.i, f'e{d}')
            ds = [c.i.crds[3 * a + d] - c.i.crds[3 * b + d] for a in range(nv) for b in range(nv) if a != b]
            r += [e > 0, band(*[x <= e for x in ds]), bor(*[eq(x, e) for x in ds])]
        return r

    def s8(rng):
        x = smp(nv, box=True)(rng)
        for d in range(nd):
            q = [x['crds'][3 * k + d] for k in range(nv)]
            x[f'e{d}'] = max(q) - min(q)
        return x
    return reqx, s8


def volume(ty):
    nv = NV[ty]
    if ty == 4:
        reqx, s8 = ghost_ext(8, 3)
        return Unit('volume_hex8r', 'geom.cpp', 'w_volx', [S('ty', 'i32', val=ty), A('crds', 'f64', 3 * nv), S('e0', 'f64'), S('e1', 'f64'), S('e2', 'f64')],
                    lambda c: [('volume is the product of the extents', eq(c.ret, c.i.e0 * c.i.e1 * c.i.e2))], reqx, ret='f64', cfg=dict(tool='edge_v'), sample=s8,
                    cuts=lambda c: [c.i.e0, c.i.e1, c.i.e2])

    def ens(c):
        r = c.ret
        if ty == 0:
            d = sub(V(c, 1), V(c, 0))
            return [('length', band(r >= 0, eq(r * r, dot(d, d))))]
        if ty in (1, 2):
            n = cross(sub(V(c, 1), V(c, 0)), sub(V(c, 2), V(c, 0)))
            return [('area is (half) the norm of the cross product of two edges', band(r >= 0, eq((2 * r if ty == 1 else r) * (2 * r if ty == 1 else r), dot(n, n))))]
        return [('volume is a sixth of the absolute triple product of the edges', eq(6 * r, rabs(det3(*[sub(V(c, k), V(c, 0)) for k in (1, 2, 3)]))))]
    return Unit(f'volume_{NAME[ty]}', 'geom.cpp', 'w_vol', [S('ty', 'i32', val=ty), A('crds', 'f64', 3 * nv)], ens, None, ret='f64',
                cfg=dict(tool='edge_v'), sample=smp(nv))


def diameter(ty):
    nv = NV[ty]
    if ty in (2, 4):
        nd = 2 if ty == 2 else 3
        reqx, s8 = ghost_ext(nv, nd)
        es = lambda c: [c.i.e0, c.i.e1, c.i.e2][:nd]
        return Unit(f'inDiameter_{NAME[ty]}', 'geom.cpp', 'w_diax', [S('ty', 'i32', val=ty), A('crds', 'f64', 3 * nv), S('e0', 'f64'), S('e1', 'f64'), S('e2', 'f64')],
                    lambda c: [(f'diameter is at most the extent in dimension {d}', c.ret <= e) for d, e in enumerate(es(c))] +
                    [('diameter is not below all extents', bor(*[c.ret >= e for e in es(c)]))],
                    reqx, ret='f64', cfg=dict(tool='edge_v'), sample=s8, rlimit=200_000_000)

    def ens(c):
        r = c.ret
        if ty in (1,):
            n = cross(sub(V(c, 1), V(c, 0)), sub(V(c, 2), V(c, 0)))
            per = t.total([rsqrt(dot(e, e)) for e in [sub(V(c, a), V(c, b)) for a, b in ((0, 1), (1, 2), (2, 0))]])
            return [('diameter times perimeter is four times the area', eq(r * per, 2 * rabs(n[2])))]
        if ty == 3:
            fs = [(0, 1, 2), (0, 1, 3), (0, 2, 3), (1, 2, 3)]
            n = [cross(sub(V(c, b), V(c, a)), sub(V(c, d), V(c, a))) for a, b, d in fs]
            return [('diameter times surface is six times the volume', eq(r * t.total([rsqrt(dot(x, x)) for x in n]), 2 * rabs(det3(*[sub(V(c, k), V(c, 0)) for k in (1, 2, 3)]))))]
        return [('diameter is the smallest extent', eq(r, mn([ext(c, d, nv) for d in range(2 if ty == 2 else 3)])))]

    def lem(c):
        n = cross(sub(V(c, 1), V(c, 0)), sub(V(c, 2), V(c, 0)))
        return [('a non-degenerate tetrahedron has a non-degenerate first face', dot(n, n) > 0)]
    return Unit(f'inDiameter_{NAME[ty]}', 'geom.cpp', 'w_dia', [S('ty', 'i32', val=ty), A('crds', 'f64', 3 * nv)], ens,
                nondeg(ty, True) if ty in (1, 3) else box(2 if ty == 2 else 3, nv), ret='f64', cfg=dict(tool='edge_v'), sample=smp(nv, flat=ty == 1, box=ty in (2, 4)),
                lemmas=lem if ty == 3 else None)


def centroid(ty):
    nv = NV[ty]
    return Unit(f'centroid_{NAME[ty]}', 'geom.cpp', 'w_cen', [S('ty', 'i32', val=ty), A('crds', 'f64', 3 * nv), A('cen', 'f64', 3, 'io')],
                lambda c: [('centroid is the mean of the vertices', band(*[eq(nv * c.o.cen[d], t.total([V(c, k)[d] for k in range(nv)])) for d in range(3)]))],
                None, cfg=dict(tool='edge_v'), sample=lambda rng: dict(smp(nv)(rng), cen=[rng.uniform(-1, 1) for _ in range(3)]))


def normal(ty):
    nv = NV[ty]

    def ens(c):
        n = [c.o.n[d] for d in range(3)]
        ts = [[c.o.t[3 * k + d] for d in range(3)] for k in range(2)]
        e = [('the normal has unit length', eq(dot(n, n), 1))]
        away = ('the normal points away from the normal point', dot(n, sub([c.i.pt[d] for d in range(3)], V(c, 0))) <= 0)
        if ty == 0:
            d = sub(V(c, 1), V(c, 0))
            return e + [('the normal is in the x-y plane', eq(n[2], 0)), ('the normal is orthogonal to the edge', eq(n[0] * d[0] + n[1] * d[1], 0)),
                        ('the normal points away from the normal point', n[0] * (c.i.pt[0] - V(c, 0)[0]) + n[1] * (c.i.pt[1] - V(c, 0)[1]) <= 0),
                        ('normal and tangent are right-handed', band(eq(ts[0][0], -n[1]), eq(ts[0][1], n[0]), eq(ts[0][2], 0))),
                        ('there is no second tangent', band(*[eq(x, 0) for x in ts[1]]))]
        return e + [away] + [(f'the normal is orthogonal to edge {k}', eq(dot(n, sub(V(c, k), V(c, 0))), 0)) for k in (1, 2)] + \
            [('the first tangent has unit length', eq(dot(ts[0], ts[0]), 1)), ('the second tangent has unit length', eq(dot(ts[1], ts[1]), 1)),
             ('the tangents are orthogonal', eq(dot(ts[0], ts[1]), 0)),
             ('normal and tangents are right-handed', band(*[eq(x, y) for x, y in zip(n, cross(*ts))]))]
    return Unit(f'normal_{NAME[ty]}', 'geom.cpp', 'w_nrm', [S('ty', 'i32', val=ty), A('crds', 'f64', 3 * nv), A('pt', 'f64', 3), A('n', 'f64', 3, 'out'), A('t', 'f64', 6, 'out')],
                ens, nondeg(ty), cfg=dict(tool='edge_v'), sample=smp(nv))


def units():
    return [volume(k) for k in range(5)] + [diameter(k) for k in range(1, 5)] + [centroid(k) for k in range(5)] + [normal(k) for k in range(3)]
