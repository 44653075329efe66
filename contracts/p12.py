"""Sub-cell limiter: detection of inadmissible solutions, projections, local Lax-Friedrichs solver, super-cells, buffers."""
import os
from fractions import Fraction as Fr
from vp.unit import Unit, S, A
from vp import terms as t, build
from vp.terms import implies, band, bor, ite, eq, bnot, forall, app, rmin, rmax, iff
from .p05 import jac, rot
from .p07 import at, ty_f64
from .p01 import modarrs

BIG = Fr(1.7976931348623157e308)
NONE = 2 ** 31 - 1
ASSUMPTIONS = ['The sub-grid tables (connectivity, types of the sub-faces, vertex combinations) are arguments with entries in range.']


def extract():
    """the block of sc/init.inc which sets up the matrix kernels (mechanically, on every run)"""
    path = os.path.join(build.tmpdir(), 'sc_init.inc')
    if not os.path.exists(path):
        ls = open(os.path.join(build.REPO, 'src/sc/init.inc')).read().split('\n')
        a = next(k for k, l in enumerate(ls) if l.startswith('{'))
        b = next(k for k in range(a, len(ls)) if ls[k].startswith('}'))
        with open(path, 'w') as f:
            f.write('\n'.join(ls[a:b + 1]) + '\n')
    return '-I' + build.tmpdir()


class G:
    def __init__(s, name, el, o, cr, eq='SEISMIC'):
        s.name, s.el, s.o, s.cr = name, el, o, cr
        s.d, s.f, s.ve, s.vf = dict(TET4=(3, 4, 4, 3), TRIA3=(2, 3, 3, 2), QUAD4R=(2, 4, 4, 2))[el]
        s.q = 1 if eq == 'ADVECTION' else (5 if s.d == 2 else 9)
        s.m = {'TET4': o * (o + 1) * (o + 2) // 6, 'TRIA3': o * (o + 1) // 2, 'QUAD4R': o * o}[el]
        s.se = 2 * o - 1
        s.s, s.sf = s.se ** s.d, s.se ** (s.d - 1)
        s.g = s.s + s.f * s.sf
        s.ty = 6 if el == 'TET4' else s.f
        s.sv = {'TRIA3': (s.se + 1) * (s.se + 2) // 2, 'QUAD4R': (s.se + 1) ** 2, 'TET4': (s.se + 1) * (s.se + 2) * (s.se + 3) // 6}[el]
        s.cfg = dict(EL=el, EQ=eq, ORDER=o, PRECISION=64, N_CRUNS=cr, flags=[extract()])

    def x(s, n):
        return lambda q, k, c: (q * n + k) * s.cr + c

    def all(s, n):
        return [(q, k, c) for q in range(s.q) for k in range(n) for c in range(s.cr)]


def arr(n, name, mode='in', **k):
    return A(name, 'f64', n, mode, **k)


def idx(n, name, hi, **k):
    return A(name, 'u16', n, lo=0, hi=hi, **k)


def adm(g):
    return A('adm', 'u8', g.cr, lo=0, hi=1)


def sm(xs):
    return t.total([a for a in xs if t.is_t(a) or a != 0])


def admissible(g, c, red):
    """the candidate does not exceed the extrema by more than the tolerance"""
    n = g.q * g.cr
    e = []
    for cr in range(g.cr):
        ok = []
        for q in range(g.q):
            j = q * g.cr + cr
            lo, hi = red[0][j], red[1][j]
            de = rmax(Fr(1, 10000), Fr(1, 1000) * (hi - lo))
            ok += [c.i.can[j] >= lo - de, c.i.can[n + j] <= hi + de]
        e.append((f'run {cr}: admissible iff no quantity leaves the range of the neighborhood by more than the tolerance', iff(eq(c.o.adm[cr], 1), band(*ok))))
    e.append(('boolean result', band(*[bor(eq(x, 0), eq(x, 1)) for x in c.o.adm])))
    return e


def dmpv(g):
    n = g.q * g.cr
    m = lambda j, k: app(f'ext{j}', (k,), 'R')

    def req(c):
        return [forall([(0, c.i.n)], lambda k: band(c.i.ve[k] >= 0, c.i.ve[k] < c.i.nEl))]

    def ax(c):
        r = []
        for j in range(2 * n):
            f = rmin if j < n else rmax
            r += [eq(m(j, 0), c.i.cur[j]), forall([(0, c.i.n)], lambda k, j=j, f=f: eq(m(j, k + 1), f(m(j, k), c.i.ad[c.i.ve[k] * (2 * n) + j])))]
        return r

    def ens(c):
        return admissible(g, c, [[m(j, c.i.n) for j in range(n)], [m(n + j, c.i.n) for j in range(n)]])

    def cands(c, lc):
        for iv in lc.ivs():
            for (rid, off), val in [x for x in lc.reals() if isinstance(x[0], tuple)]:
                o0 = lc.st0.mem[rid].cells[off][0]
                for j in range(2 * n):
                    if t.is_t(o0) and o0 is c.i.cur[j] or o0 == c.i.cur[j]:
                        yield ('ext', lambda v, iv=iv, val=val, j=j: eq(val(v), m(j, v.phi(iv.d) - lc.init[iv.d])))

    def sample(rng):
        k = rng.randint(0, 4)
        ne = rng.randint(1, 3)
        w = rng.choice([1e-4, 1, 100])
        cur = [rng.uniform(-w, w) for _ in range(n)]
        cur += [x + rng.choice([0, w]) for x in cur]
        ad = []
        for _ in range(ne):
            a = [rng.uniform(-w, w) for _ in range(n)]
            ad += a + [x + rng.choice([0, w]) for x in a]
        can = [x + rng.choice([0, .5, -1.5e-4, 1e-4]) for x in cur]
        return dict(n=k, nEl=ne, ve=[rng.randrange(ne) for _ in range(k)], cur=cur, ad=ad, can=can)

    def gfuns(inp):
        def mk(j):
            def f(k):
                x = inp['cur'][j]
                for l in range(int(k)):
                    x = (min if j < n else max)(x, inp['ad'][inp['ve'][l] * 2 * n + j])
                return x
            return f
        return {f'ext{j}': mk(j) for j in range(2 * n)}
    return Unit(f'detect_vertices_{g.name}', 'sc.cpp', 'w_dmpv', [arr(2 * n, 'cur'), arr(lambda c: c.i.nEl * (2 * n), 'ad'), arr(2 * n, 'can'), S('n', 'u16'), S('nEl', 'i32', 1, 1 << 24),
                A('ve', 'i32', lambda c: c.i.n), A('adm', 'u8', g.cr, 'out')], ens, req, cfg=g.cfg, inv=True, cands=cands, axioms=ax, sample=sample, gfuns=gfuns)


def dmpf(g):
    n = g.q * g.cr

    def req(c):
        return [bor(eq(f, NONE), band(f >= 0, f < c.i.nEl)) for f in c.i.fa]

    def ens(c):
        red = [[], []]
        for ex in range(2):
            for j in range(n):
                x = c.i.cur[ex * n + j]
                for f in c.i.fa:
                    y = c.i.ad[f * (2 * n) + ex * n + j]
                    x = ite(eq(f, NONE), x, (rmax if ex else rmin)(x, y))
                red[ex].append(x)
        return admissible(g, c, red)

    def sample(rng):
        ne = rng.randint(1, 3)
        cur = [rng.uniform(-1, 1) for _ in range(n)]
        cur += [x + rng.choice([0, 1]) for x in cur]
        ad = []
        for _ in range(ne):
            a = [rng.uniform(-1, 1) for _ in range(n)]
            ad += a + [x + rng.choice([0, 1]) for x in a]
        return dict(nEl=ne, fa=[rng.choice([NONE] + list(range(ne))) for _ in range(g.f)], cur=cur, ad=ad, can=[x + rng.choice([0, .5, -1.5e-4, 1e-4]) for x in cur])
    return Unit(f'detect_faces_{g.name}', 'sc.cpp', 'w_dmpf', [arr(2 * n, 'cur'), arr(lambda c: c.i.nEl * (2 * n), 'ad'), arr(2 * n, 'can'), S('nEl', 'i32', 1, 1 << 24),
                A('fa', 'i32', g.f), A('adm', 'u8', g.cr, 'out')], ens, req, cfg=g.cfg, sample=sample)


def project(g, src, n, mat, k):
    """multiplication with a projection matrix (n x k)"""
    x = g.x(n)
    return lambda q, l, c: sm([src[x(q, j, c)] * mat[j * k + l] for j in range(n)])


def ext_contract(g):
    """scExtrema: see unit extrema"""
    def f(ex, st, args):
        sc, mi, ma = args
        x = g.x(g.s)
        for q in range(g.q):
            for r in range(g.cr):
                v = [ex.load(st, at(sc, x(q, s, r)), ty_f64) for s in range(g.s)]
                ex.oblige('precondition of scExtrema', st, band(*[band(-BIG <= y, y <= BIG) for y in v]))
                for p, op in ((mi, lambda a, b: a <= b), (ma, lambda a, b: b <= a)):
                    e = t.rvar(t.fresh_name('ext'))
                    for y in v:
                        ex.assume(st, op(e, y))
                    ex.assume(st, bor(*[eq(e, y) for y in v]))
                    ex.store_(st, at(p, q * g.cr + r), e, ty_f64)
        return 0
    return f


def kernels(g):
    us = []
    xs, xf, xm = g.x(g.s), g.x(g.sf), g.x(g.m)
    nE, nS, nF = g.q * g.m * g.cr, g.q * g.s * g.cr, g.q * g.sf * g.cr

    def u(nm, fn, ps, ens, req=None, **k):
        us.append(Unit(f'{nm}_{g.name}', 'sc.cpp', fn, ps, ens, req, cfg=g.cfg, **k))

    def proj(txt, src, n, k):
        x = g.x(k)
        return lambda c: [(f'quantity {q}: {txt}', band(*[eq(c.o.o[x(*y)], project(g, getattr(c.i, src), n, c.i.mat, k)(*y)) for y in g.all(k) if y[0] == q])) for q in range(g.q)]
    u('scatter', 'w_sca', [arr(nE, 'dg'), arr(g.m * g.s, 'mat'), arr(nS, 'o', 'out')], proj('sub-cell averages of the modes', 'dg', g.m, g.s))
    u('scatter_face', 'w_scf', [arr(nE, 'dg'), arr(g.m * g.sf, 'mat'), arr(nF, 'o', 'out')], proj('sub-cell averages at the face', 'dg', g.m, g.sf))
    u('gather', 'w_gat', [arr(nS, 'sc'), arr(g.s * g.m, 'mat'), arr(nE, 'o', 'out')], proj('modes of the sub-cell averages', 'sc', g.s, g.m))
    u('face_integral', 'w_sfi', [arr(nF, 'fl'), arr(g.sf * g.m, 'mat'), arr(nE, 'o', 'out')], proj('surface integral of the sub-cell fluxes', 'fl', g.sf, g.m))

    def rep(k, has):
        x = g.x(k)
        return lambda c: [(f'run {r}: stored sub-cells where the previous solution is not admissible, projection elsewhere', band(*[
            eq(c.o.o[x(*y)], ite(eq(c.i.adm[r], 0), c.i.sc[x(*y)], project(g, c.i.dg, g.m, c.i.mat, k)(*y)) if has else project(g, c.i.dg, g.m, c.i.mat, k)(*y))
            for y in g.all(k) if y[2] == r])) for r in range(g.cr)]
    u('replace', 'w_rep', [arr(nE, 'dg'), arr(g.m * g.s, 'mat'), arr(nS, 'sc'), adm(g), arr(nS, 'o', 'out')], rep(g.s, True))
    for has in (0, 1):
        u(f'replace_face_{has}', 'w_ref', [S('has', 'u8', val=has), arr(nE, 'dg'), arr(g.m * g.sf, 'mat'), arr(nF, 'sc'), adm(g), arr(nF, 'o', 'out')], rep(g.sf, has))

    def gsf(c):
        e = []
        for f in range(g.f):
            gl = []
            for q, sf, r in g.all(g.sf):
                o = (f * g.q + q) * g.sf * g.cr + sf * g.cr + r
                if f == 1:
                    gl.append(eq(c.o.o[o], c.i.o[o]))
                    continue
                vid = c.i.vId[f]
                x = None
                for v in range(g.vf):
                    w = c.i.ad[v * g.sf + sf]
                    y = None
                    for s in range(g.sf):
                        z = c.i.sc[xs(q, TAB[f][s] % g.s, r)]
                        y = z if y is None else ite(eq(w, s), z, y)
                    x = y if x is None else ite(eq(vid, v), y, x)
                gl.append(eq(c.o.o[o], ite(eq(c.i.adm[r], 0), x, c.i.o[o])))
            e.append((f'face {f}: ' + ('not required, untouched' if f == 1 else 'sub-cells at the face in the order of the adjacent element, inadmissible runs only'), band(*gl)))
        return e
    import random
    rng = random.Random(5)
    TAB = [[rng.randrange(g.s) for _ in range(g.sf)] for _ in range(g.f)]
    u('surface', 'w_gsf', [arr(nS, 'sc'), A('faSc', 'u16', g.f * g.sf, vals=sum(TAB, [])), idx(g.vf * g.sf, 'ad', g.sf - 1), idx(g.f, 'vId', g.vf - 1), adm(g), arr(g.f * nF, 'o', 'io')], gsf)

    def ext(src):
        def ens(c):
            e = []
            for q in range(g.q):
                gl = []
                for r in range(g.cr):
                    v = [src(c)(q, s, r) for s in range(g.s)]
                    mi, ma = c.o.mi[q * g.cr + r], c.o.ma[q * g.cr + r]
                    gl += [mi <= x for x in v] + [x <= ma for x in v] + [bor(*[eq(mi, x) for x in v]), bor(*[eq(ma, x) for x in v])]
                e.append((f'quantity {q}: smallest and largest sub-cell average', band(*gl)))
            return e
        return ens
    nx = [arr(g.q * g.cr, 'mi', 'out'), arr(g.q * g.cr, 'ma', 'out')]
    u('extrema', 'w_ext', [arr(nS, 'sc')] + nx, ext(lambda c: lambda *y: c.i.sc[xs(*y)]), lambda c: [band(-BIG <= x, x <= BIG) for x in c.i.sc])
    u('dg_extrema', 'w_dge', [arr(nE, 'dg'), arr(g.m * g.s, 'mat'), arr(nS, 'sc', 'out')] + nx,
      lambda c: ext(lambda c: lambda *y: c.o.sc[xs(*y)])(c) + [('sub-cell averages of the modes', band(*[eq(c.o.sc[xs(*y)], project(g, c.i.dg, g.m, c.i.mat, g.s)(*y)) for y in g.all(g.s)]))],
      lambda c: [band(-BIG <= y, y <= BIG) for x in g.all(g.s) for y in [project(g, c.i.dg, g.m, c.i.mat, g.s)(*x)]], contracts={'Kernels.*scExtrema': ext_contract(g)})
    return us


def ids(g):
    def ens(c):
        ty, F, T = c.i.ty, g.f, g.ty
        dg = ty < 2 * F
        return [('sides', iff(bnot(eq(c.ret, 0)), bor(ty < F, band(ty >= 2 * F, ty < 2 * F + T)))),
                ('own solver: direction of the sub-face', eq(c.o.o[0], ite(dg, ite(ty < F, ty, ty - F), ite(ty < 2 * F + T, ty - 2 * F, ty - 2 * F - T)))),
                ('adjacent solver: material of the adjacent element across element faces only', eq(c.o.o[1], c.o.o[0] + ite(dg, T, 0)))]
    return Unit(f'sides_{g.name}', 'sc.cpp', 'w_ids', [S('ty', 'u16', 0, 2 * g.f + 2 * g.ty - 1), A('o', 'u16', 2, 'out')], ens, cfg=g.cfg, ret='u8')


def solver(g, c):
    n = g.ty + g.f
    cen = lambda k, a, b: c.i.cen[((c.i.lp * n + k) * g.q + a) * g.q + b]
    vis = lambda k: c.i.vis[c.i.lp * n + k]
    return cen, vis


def data(g):
    n = g.ty + g.f
    return [S('nLp', 'i32', 1, 1 << 20), S('lp', 'i32', 0, (1 << 20) - 1)], [arr(lambda c: c.i.nLp * (n * g.q * g.q), 'cen'), arr(lambda c: c.i.nLp * n, 'vis')]


def tss(g, name, adj=None, types=None, nup=None, conserve=False):
    """adj, types: adjacent sub-cells and types of the sub-faces (None: all)"""
    ps, ar = data(g)
    xg, xs = g.x(g.g), g.x(g.s)

    def req(c):
        r = [c.i.lp < c.i.nLp]
        if types is None:
            r += [bor(x < g.f, x >= 2 * g.f) for x in c.i.ty]
        return r

    def ens(c):
        if conserve:
            return [(f'conservation of quantity {q}, run {r}', eq(sm([c.o.o[xs(q, s, r)] for s in range(g.s)]), sm([c.i.i[xg(q, s, r)] for s in range(g.s)]))) for q in range(g.q) for r in range(g.cr)]
        cen, vis = solver(g, c)
        e = []
        for s in range(g.s):
            gl = []
            for q in range(g.q):
                for r in range(g.cr):
                    x = c.i.i[xg(q, s, r)]
                    for f in range(g.f):
                        ad, ty = c.i.sc[s * g.f + f], c.i.ty[s * g.f + f]
                        if t.is_t(ad):
                            def own(a):
                                v = c.i.i[xg(a, 0, r)]
                                for k in range(1, g.g):
                                    v = ite(eq(ad, k), c.i.i[xg(a, k, r)], v)
                                return v
                            nb = [own(a) for a in range(g.q)]
                        else:
                            nb = [c.i.i[xg(a, ad, r)] for a in range(g.q)]

                        def contr(dg, d, sg):
                            h = d + (g.ty if dg else 0)
                            v = vis(h) * (c.i.i[xg(q, s, r)] - nb[q]) + sg * sm([cen(d, q, a) * c.i.i[xg(a, s, r)] + cen(h, q, a) * nb[a] for a in range(g.q)])
                            return c.i.dt * v
                        opts = [(d, ite(eq(c.i.nu[d], 0), contr(True, d, 1), nb[q])) for d in range(g.f)] + [(2 * g.f + d, contr(False, d, 1)) for d in range(g.ty)] + [
                            (2 * g.f + g.ty + d, contr(False, d, -1)) for d in range(g.ty)]
                        if t.is_t(ty):
                            y = opts[-1][1]
                            for v, z in opts[:-1]:
                                y = ite(eq(ty, v), z, y)
                        else:
                            y = dict(opts)[ty]
                        x = x + y
                    gl.append(eq(c.o.o[xs(q, s, r)], x))
            e.append((f'sub-cell {s}: viscosity and central fluxes of the sub-faces, given net updates', band(*gl)))
        return e
    return Unit(f'update_{name}', 'sc.cpp', 'w_tss', [S('dt', 'f64')] + ps + [A('sc', 'u16', g.s * g.f, lo=0, hi=g.g - 1, vals=adj), A('ty', 'u16', g.s * g.f, lo=0, hi=2 * g.f + 2 * g.ty - 1, vals=types),
                A('nu', 'u8', g.f, lo=0, hi=1, vals=nup)] + ar + [arr(g.q * g.g * g.cr, 'i'), arr(g.q * g.s * g.cr, 'o', 'out')], ens, req, cfg=g.cfg)


def torus(g):
    """every sub-face of the rectangles is an inner sub-face with a left and a right side"""
    n = g.se
    adj, ty = [], []
    for s in range(g.s):
        x, y = s % n, s // n
        adj += [(y - 1) % n * n + x, y * n + (x + 1) % n, (y + 1) % n * n + x, y * n + (x - 1) % n]
        ty += [2 * g.f + g.ty + 0, 2 * g.f + 1, 2 * g.f + 0, 2 * g.f + g.ty + 1]
    return adj, ty


def table(g, seed):
    import random
    rng = random.Random(seed)
    adj = [rng.randrange(g.g) for _ in range(g.s * g.f)]
    ty = [rng.choice(list(range(g.f)) + list(range(2 * g.f, 2 * g.f + 2 * g.ty))) for _ in range(g.s * g.f)]
    return adj, ty


def nuf(g, fa):
    ps, ar = data(g)
    xf = g.x(g.sf)
    n = g.q * g.sf * g.cr

    def ens(c):
        cen, vis = solver(g, c)
        e = []
        for sf in range(g.sf):
            gl = []
            for q in range(g.q):
                for r in range(g.cr):
                    L = [c.i.i[xf(a, sf, r)] for a in range(g.q)]
                    P = [c.i.i[n + xf(a, sf, r)] for a in range(g.q)]
                    v = vis(g.ty + fa) * (L[q] - P[q]) + sm([cen(fa, q, a) * L[a] + cen(g.ty + fa, q, a) * P[a] for a in range(g.q)])
                    gl.append(eq(c.o.o[xf(q, sf, r)], c.i.dt * v))
            e.append((f'sub-face {sf}: same update as in the sub-grid', band(*gl)))
        return e
    return Unit(f'face_update_{g.name}_{fa}', 'sc.cpp', 'w_nuf', [S('dt', 'f64')] + ps + [S('fa', 'u16', val=fa)] + ar + [arr(2 * n, 'i'), arr(n, 'o', 'out')], ens, lambda c: [c.i.lp < c.i.nLp], cfg=g.cfg)


def inverse_contract(ex, st, args):
    """setupTrafoInv3d for orthonormal bases: the transposed rotation (unit rotation_3d of P05: it is the inverse)"""
    ax, o = args[:9], args[9]
    for i in range(3):
        for j in range(i, 3):
            ex.oblige('precondition of setupTrafoInv3d: orthonormal', st, eq(sm([ax[3 * i + k] * ax[3 * j + k] for k in range(3)]), int(i == j)))
    m = rot([ax[:3], ax[3:6], ax[6:]], True, 3)
    for a in range(9):
        for b in range(9):
            ex.store_(st, at(o, a * 9 + b), m[a][b], ty_f64)
    return 0


def cen(g):
    nd, n = g.d, g.q

    def req(c):
        r = [c.i.mat[2] > 0]
        if nd == 2:
            r += [eq(c.i.n[0] * c.i.n[0] + c.i.n[1] * c.i.n[1], 1)]
        else:
            r += [sm([x * x for x in c.i.qu]) > 0]
        return r

    def ens(c):
        js = [jac(nd, d, c.i.mat[2], c.i.mat[0], c.i.mat[1]) for d in range(nd)]
        no = c.i.n if nd == 2 else c.o.n
        return [(f'row {a}: minus half of the Jacobian in normal direction', band(*[eq(c.o.o[a * n + b], Fr(-1, 2) * sm([no[d] * js[d][a][b] for d in range(nd)])) for b in range(n)])) for a in range(n)]

    def sample(rng):
        import math
        w = rng.uniform(0, 7)
        m = dict(mat=[rng.uniform(.5, 3) for _ in range(3)])
        if nd == 2:
            m['n'] = [math.cos(w), math.sin(w)]
        return m
    if nd == 2:
        return Unit('central_2d', 'sc.cpp', 'w_cen', [arr(3, 'mat'), arr(2, 'n'), arr(2, 't0'), arr(2, 't1'), arr(n * n, 'o', 'out')], ens, req, cfg=g.cfg, sample=sample)
    return Unit('central_3d', 'sc.cpp', 'w_ceq', [arr(3, 'mat'), arr(4, 'qu'), arr(3, 'n', 'out'), arr(3, 't0', 'out'), arr(3, 't1', 'out'), arr(n * n, 'o', 'out')], ens, req, cfg=g.cfg, sample=sample,
                contracts={'setupTrafoInv3d': inverse_contract})


def sup(g):
    ns = (g.sf - g.se) // 2 if g.el == 'TET4' else 1
    ns = max(ns, 1)
    xs = g.x(g.s)
    k = 0 if g.el != 'TET4' else ns
    st = [2 * j for j in range(ns)] + [2 * j + 1 for j in range(ns)]
    st = [y for x in zip(st[:ns], st[ns:]) for y in x]

    def ens(c):
        e = []
        for s in range(g.s):
            gl = []
            for q in range(g.q):
                for r in range(g.cr):
                    p = s // 2
                    if p < k:
                        gl.append(eq(c.o.io[xs(q, s, r)], (c.i.io[xs(q, 2 * p, r)] + c.i.io[xs(q, 2 * p + 1, r)]) / 2))
                    else:
                        gl.append(eq(c.o.io[xs(q, s, r)], c.i.io[xs(q, s, r)]))
            e.append((f'sub-cell {s}: ' + ('average of the super-cell' if s // 2 < k else 'untouched'), band(*gl)))
        return e
    return Unit(f'super_cells_{g.name}', 'sc.cpp', 'w_sup', [A('st', 'u16', 2 * ns, vals=st), arr(g.q * g.s * g.cr, 'io', 'io')], ens, cfg=g.cfg)


def closest(g):
    def dist(c, s):
        return sm([t.mul(d, d) for v in range(g.ve) for k in range(g.d) for d in [c.i.crds[SV[s][v] * g.d + k] - c.i.pt[k]]])
    import random
    rng = random.Random(3)
    SV = [[rng.randrange(g.sv) for _ in range(g.ve)] for _ in range(g.s)]
    B = Fr(10) ** 100

    def ens(c):
        d = [dist(c, s) for s in range(g.s)]
        return [('a sub-cell', band(c.ret >= 0, c.ret < g.s))] + [(f'result {s}: no sub-cell is closer', implies(eq(c.ret, s), band(*[d[s] <= x for x in d]))) for s in range(g.s)]
    return Unit(f'closest_{g.name}', 'sc.cpp', 'w_pts', [arr(g.d, 'pt'), A('scSv', 'i32', g.s * g.ve, vals=sum(SV, [])), arr(g.sv * g.d, 'crds')], ens,
                lambda c: [band(-B <= x, x <= B) for x in list(c.i.pt) + list(c.i.crds)], cfg=g.cfg, ret='i32')


def buffers(g):
    us = []

    def par(c):
        return t.imod(c.i.n, 2) if t.is_t(c.i.n) else c.i.n % 2

    def u(nm, fn, n, f):
        us.append(Unit(nm, 'sc.cpp', fn, [S('n', 'u64'), A('o', 'u16', n, 'out')], lambda c: [('previous and current buffers alternate with the time steps', band(*[eq(c.o.o[k], ite(eq(par(c), 0), k, f(k))) for k in range(n)]))], cfg=g.cfg))
    u('ids_adm', 'w_aid', 4, lambda k: (k + 2) % 4)
    u('ids_ext', 'w_eid', 2, lambda k: 1 - k)
    u('ids_dofs', 'w_did', 2, lambda k: 1 - k)
    u('reset_adm', 'w_rad', 4, lambda k: (k + 2) % 4)
    u('reset_dofs', 'w_rdo', 2, lambda k: 1 - k)
    u('reset_ext', 'w_rex', 2, lambda k: 1 - k)

    def rls():
        n = g.cr

        def req(c):
            F = (c.i.first, c.i.first + c.i.size)
            return [c.i.first + c.i.size <= c.i.nLp, forall([F], lambda k: bor(eq(c.i.li[k], NONE), band(c.i.li[k] >= 0, c.i.li[k] < c.i.nLi)))]

        def spec(c, s, hi):
            # reset if an element of the range is limited; nothing else changes
            return [('limited elements of the range start over', forall([(c.i.first, hi)], lambda k: implies(bnot(eq(c.i.li[k], NONE)), band(*[eq(s[c.i.li[k] * n + r], 0) for r in range(n)])))),
                    ('counters of other elements are kept', forall([(0, c.i.nLi)], lambda e: band(*[bor(eq(s[e * n + r], c.i.s[e * n + r]), eq(s[e * n + r], 0)) for r in range(n)])))]

        def ens(c):
            return spec(c, c.o.s, c.i.first + c.i.size)

        def cands(c, lc):
            for rid, reg in modarrs(lc, 'I'):
                for q in lc.ivs():
                    for j in range(2):
                        yield (f'spec{j}', lambda v, q=q, j=j: spec(c, v.arr(rid), v.phi(q.d))[j][1])

        def sample(rng):
            nl, ni = rng.randint(1, 6), rng.randint(1, 4)
            f = rng.randint(0, nl)
            return dict(first=f, size=rng.randint(0, nl - f), nLp=nl, nLi=ni, li=[rng.choice([NONE] + list(range(ni))) for _ in range(nl)], s=[rng.randint(0, 9) for _ in range(n * ni)])
        us.append(Unit('reset_counters', 'sc.cpp', 'w_rls', [S('first', 'i32', 0, 1 << 28), S('size', 'i32', 0, 1 << 28), S('nLp', 'i32', 0, 1 << 28), S('nLi', 'i32', 0, 1 << 24), A('li', 'i32', lambda c: c.i.nLp),
                       A('s', 'u32', lambda c: c.i.nLi * n, 'io')], ens, req, cfg=g.cfg, inv=True, cands=cands, sample=sample))
    rls()
    return us


def units():
    tri = G('tri2', 'TRIA3', 2, 2)
    tri1 = G('tri1', 'TRIA3', 1, 1)
    tet1 = G('tet1', 'TET4', 1, 1)
    quad = G('quad2', 'QUAD4R', 2, 1)
    tet = G('tet2', 'TET4', 2, 1)
    us = [dmpv(tri), dmpf(tri), dmpf(tet1)] + kernels(tri) + [ids(g) for g in (tri, quad, tet)]
    for g in (tri1, tet1):
        k = list(range(g.f)) + list(range(2 * g.f, 2 * g.f + 2 * g.ty))
        us += [tss(g, f'{g.name}_{j}', list(range(1, g.f + 1)), k[j * g.f:(j + 1) * g.f]) for j in range(len(k) // g.f)]
    us += [tss(quad, 'conservation', *torus(quad), conserve=True)] + [tss(g, g.name, *table(g, 1)) for g in (tri, quad)]
    us += [nuf(tri, fa) for fa in range(3)] + [cen(tri), cen(tet), sup(tet), sup(tri), closest(tri)] + buffers(tri)
    return us
