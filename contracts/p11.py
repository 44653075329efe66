"""Partitioning and communication structures of the mesh tool (tools/edge_v/src/mesh/{Partition,Communication})."""
from vp.unit import Unit, S, A
from vp import terms as t
from vp.terms import forall, implies, band, bor, ite, eq, app, bnot
from contracts.p01 import modarrs, mesh, NONE, NF, NMAX, CFG
NAME = ['line', 'tria3', 'quad4r', 'tet4', 'hex8r']
PMAX = 1 << 30


def nb(c, nf, e, f):
    return c.i.elFaEl[e * nf + f]


def has(c, nf, e, f):
    return bnot(eq(nb(c, nf, e, f), NONE))


def comm(c, nf, e):
    """an adjacent element belongs to another partition"""
    return bor(*[band(has(c, nf, e, f), bnot(eq(c.i.elPa[nb(c, nf, e, f)], c.i.elPa[e]))) for f in range(nf)])


def adj_ok(c, nf):
    return forall([(0, c.i.n)], lambda e: band(*[bor(eq(nb(c, nf, e, f), NONE), nb(c, nf, e, f) < c.i.n) for f in range(nf)]))


def pcomm(nf, ad, pa, e):
    return any(ad[e * nf + f] != NONE and pa[ad[e * nf + f]] != pa[e] for f in range(nf))


def sizes(nf):
    return lambda c: c.i.n * nf


def n_(c):
    return c.i.n


# ------------------------------------------------------------------------------------------------ single elements
def is_comm(ty):
    nf = NF[ty]

    def sample(rng):
        n, _, ad = mesh(rng, ty)
        n = max(n, 1)
        return dict(n=n, elFaEl=ad or [NONE] * nf, el=rng.randrange(n), elPa=[rng.randrange(3) for _ in range(n)])
    return Unit('isComm_' + NAME[ty], 'part.cpp', 'w_isComm', [S('ty', 'i32', val=ty), S('n', 'u64', 0, NMAX), S('el', 'u64', 0, NMAX),
                A('elFaEl', 'u64', sizes(nf)), A('elPa', 'u64', n_)],
                lambda c: [('communicating: an adjacent element is in another partition', t.iff(eq(c.ret, 1), comm(c, nf, c.i.el)))],
                lambda c: [adj_ok(c, nf), c.i.el < c.i.n], ret='bool', cfg=CFG, sample=sample)


# ------------------------------------------------------------------------------------------------ communication regions
def cm(c, e):
    """ghost: the element communicates (defined by the precondition, delivered by the contract of isComm)"""
    return eq(c.i.cm[e], 1)


def cm_ok(c, nf):
    return band(adj_ok(c, nf), forall([(0, c.i.n)], lambda e: t.iff(cm(c, e), comm(c, nf, e))))


ENT = {0: 1, 1: 3, 2: 2, 3: 5, 4: 4}


def comm_contract(ty):
    """isComm under contract (units isComm_*): its result is the ghost of the element"""
    def f(ex, st, a):
        c = CUR['c']
        ety, e, ad, pa = a
        nf = NF[ty]
        ex.oblige('precondition', st, band(eq(ety, ENT[ty]), e < c.i.n, ad.r == ex.rids['elFaEl'], pa.r == ex.rids['elPa'],
                                           eq(ad.o, 0), eq(pa.o, 0)), 'isComm')
        return cm(c, e)
    return {'Communication6isCommE': f}


CUR = {}


def region(ty):
    nf = NF[ty]
    cnt = lambda p, k: app('cnt', (p, k), 'I')

    def ax(c):
        n, p = c.i.n, c.i.nPas
        return [forall([(0, p)], lambda q: eq(cnt(q, 0), 0)),
                forall([(0, p), (0, n)], lambda q, k: eq(cnt(q, k + 1), cnt(q, k) + ite(band(eq(c.i.elPa[k], q), cm(c, k)), 1, 0)))]

    def req(c):
        CUR['c'] = c
        n, p, fc, pa = c.i.n, c.i.nPas, c.i.fc, c.i.elPa
        return [cm_ok(c, nf), forall([(0, n)], lambda e: pa[e] < p),
                # the elements are sorted by partitions
                forall([(0, n), (0, n)], lambda e, g: bor(g < e, pa[e] <= pa[g])),
                # fc: first communicating element of the partition
                forall([(0, p)], lambda q: band(fc[q] < n, eq(pa[fc[q]], q), cm(c, fc[q]))),
                forall([(0, n)], lambda e: implies(cm(c, e), fc[pa[e]] <= e)),
                # consequences of the order (stated for the solver)
                forall([(0, n)], lambda e: implies(pa[e] > 0, fc[pa[e] - 1] < e)),
                forall([(0, n)], lambda e: implies(e < fc[pa[e]], bnot(cm(c, e))))]

    def ens(c):
        p = c.i.nPas
        return [('the region starts at the first communicating element', forall([(0, p)], lambda q: eq(c.o.first[q], c.i.fc[q]))),
                ('the region has the size of all communicating elements', forall([(0, p)], lambda q: eq(c.o.size[q], cnt(q, c.i.n))))]

    def cands(c, lc):
        n, p, fc, pa = c.i.n, c.i.nPas, c.i.fc, c.i.elPa
        F, Z = c.ex.rids['first'], c.ex.rids['size']
        for q in lc.ivs():
            yield ('first', lambda v, q=q: forall([(0, p)], lambda r: implies(fc[r] < v.phi(q.d), eq(v.arr(F)[r], fc[r]))))
            yield ('size', lambda v, q=q: forall([(0, p)], lambda r: implies(fc[r] < v.phi(q.d), eq(v.arr(Z)[r], cnt(r, v.phi(q.d))))))
            yield ('none', lambda v, q=q: forall([(0, p)], lambda r: implies(fc[r] >= v.phi(q.d), eq(cnt(r, v.phi(q.d)), 0))))
            yield ('le', lambda v, q=q: forall([(0, p)], lambda r: cnt(r, v.phi(q.d)) <= v.phi(q.d)))
            for g in lc.int_phis():
                if g.d == q.d:
                    continue
                yield ('seen', lambda v, q=q, g=g: forall([(0, v.phi(q.d))], lambda e: implies(cm(c, e), band(bnot(eq(v.phi(g.d), NONE)), pa[e] <= v.phi(g.d)))))
                yield ('next', lambda v, q=q, g=g: forall([(0, p)], lambda r: implies(fc[r] < v.phi(q.d), band(bnot(eq(v.phi(g.d), NONE)), r <= v.phi(g.d)))))
                yield ('reg2', lambda v, q=q, g=g: bor(eq(v.phi(g.d), NONE), forall([(v.phi(q.d), n)], lambda e: v.phi(g.d) <= pa[e])))
                yield ('reg', lambda v, q=q, g=g: bor(eq(v.phi(g.d), NONE), band(v.phi(g.d) < p, fc[v.phi(g.d)] < v.phi(q.d))))

    def sample(rng):
        n, _, ad = mesh(rng, ty)
        k = rng.randint(1, 4)
        pa = sorted(rng.randrange(k) for _ in range(n))
        names = sorted(set(pa))
        pa = [names.index(x) for x in pa]
        k = len(names)
        fc = [next((e for e in range(n) if pa[e] == q and pcomm(nf, ad, pa, e)), 0) for q in range(k)]
        return dict(n=n, nPas=k, elFaEl=ad, elPa=pa, fc=fc, cm=[int(pcomm(nf, ad, pa, e)) for e in range(n)])

    def gf(inp):
        return dict(cnt=lambda p, k: sum(1 for e in range(k) if inp['elPa'][e] == p and pcomm(nf, inp['elFaEl'], inp['elPa'], e)))
    np = lambda c: c.i.nPas
    return Unit('getPaElComm_' + NAME[ty], 'part.cpp', 'w_getPaElComm',
                [S('ty', 'i32', val=ty), S('n', 'u64', 0, NMAX), S('nPas', 'u64', 0, PMAX), A('elFaEl', 'u64', sizes(nf)), A('elPa', 'u64', n_), A('cm', 'u8', n_, hi=1),
                 A('fc', 'u64', np), A('first', 'u64', np, 'out'), A('size', 'u64', np, 'out')],
                ens, req, cfg=CFG, inv=True, cands=cands, sample=sample, axioms=ax, gfuns=gf, contracts=comm_contract(ty))


def in_se(ty, ntg):
    nf = NF[ty]
    ci = lambda p, k: app('ci', (p, k), 'I')
    cs = lambda p, k: app('cs', (p, k), 'I')

    def key(c, e):
        return c.i.elPa[e] * ntg + c.i.elTg[e]

    def ax(c):
        n, p = c.i.n, c.i.nPas * ntg
        return [forall([(0, p)], lambda q: band(eq(ci(q, 0), 0), eq(cs(q, 0), 0))),
                forall([(0, p), (0, n)], lambda q, k: eq(ci(q, k + 1), ci(q, k) + ite(band(eq(key(c, k), q), bnot(cm(c, k))), 1, 0))),
                forall([(0, p), (0, n)], lambda q, k: eq(cs(q, k + 1), cs(q, k) + ite(band(eq(key(c, k), q), cm(c, k)), 1, 0)))]

    def req(c):
        CUR['c'] = c
        return [cm_ok(c, nf), forall([(0, c.i.n)], lambda e: band(c.i.elPa[e] < c.i.nPas, c.i.elTg[e] < ntg))]

    def ens(c):
        r = [(0, c.i.nPas * ntg)]
        return [('inner elements per partition and time group', forall(r, lambda q: eq(c.o['in'][q] if False else getattr(c.o, 'in')[q], ci(q, c.i.n)))),
                ('send elements per partition and time group', forall(r, lambda q: eq(c.o.se[q], cs(q, c.i.n))))]

    def cands(c, lc):
        for q in lc.ivs():
            for rid, f in ((c.ex.rids['in'], ci), (c.ex.rids['se'], cs)):
                yield ('zero', lambda v, q=q, rid=rid: forall([(0, v.phi(q.d) * ntg)], lambda k: eq(v.arr(rid)[k], 0)))
                for o in lc.outer_ivs():
                    yield ('zero2', lambda v, q=q, rid=rid, o=o: forall([(0, o * ntg + v.phi(q.d))], lambda k: eq(v.arr(rid)[k], 0)))
                yield ('cnt', lambda v, q=q, rid=rid, f=f: forall([(0, c.i.nPas * ntg)], lambda k: eq(v.arr(rid)[k], f(k, v.phi(q.d)))))
                yield ('le', lambda v, q=q, f=f: forall([(0, c.i.nPas * ntg)], lambda k: f(k, v.phi(q.d)) <= v.phi(q.d)))

    def sample(rng):
        n, _, ad = mesh(rng, ty)
        k = rng.randint(1, 3)
        pa = [rng.randrange(k) for _ in range(n)]
        return dict(n=n, nPas=k, elFaEl=ad, elPa=pa, cm=[int(pcomm(nf, ad, pa, e)) for e in range(n)], elTg=[rng.randrange(ntg) for _ in range(n)])

    def gf(inp):
        def f(want):
            return lambda q, k: sum(1 for e in range(k) if inp['elPa'][e] * ntg + inp['elTg'][e] == q
                                    and pcomm(nf, inp['elFaEl'], inp['elPa'], e) == want)
        return dict(ci=f(False), cs=f(True))
    np = lambda c: c.i.nPas * ntg
    return Unit(f'nElsInSe_{NAME[ty]}_{ntg}', 'part.cpp', 'w_nElsInSe',
                [S('ty', 'i32', val=ty), S('nPas', 'u64', 0, PMAX), S('nTgs', 'u16', val=ntg), S('n', 'u64', 0, NMAX), A('elFaEl', 'u64', sizes(nf)),
                 A('elPa', 'u64', n_), A('cm', 'u8', n_, hi=1), A('elTg', 'u16', n_), A('in', 'u64', np, 'out'), A('se', 'u64', np, 'out')],
                ens, req, cfg=CFG, inv=True, cands=cands, sample=sample, axioms=ax, gfuns=gf, contracts=comm_contract(ty))


# ------------------------------------------------------------------------------------------------ partitions
def n_els():
    cnt = lambda p, k: app('cnt', (p, k), 'I')

    def ax(c):
        n, p = c.i.n, c.i.nPas
        return [forall([(0, p)], lambda q: eq(cnt(q, 0), 0)),
                forall([(0, p), (0, n)], lambda q, k: eq(cnt(q, k + 1), cnt(q, k) + ite(eq(c.i.elPa[k], q), 1, 0)))]

    def req(c):
        return [c.i.nPas >= 1, forall([(0, c.i.n)], lambda e: c.i.elPa[e] < c.i.nPas),
                # the last partition is not empty
                c.i.last < c.i.n, eq(c.i.elPa[c.i.last], c.i.nPas - 1)]

    def cands(c, lc):
        for q in lc.ivs():
            yield ('zero', lambda v, q=q: forall([(0, v.phi(q.d))], lambda g: eq(v.arr(c.ex.rids['num'])[g], 0)))
            yield ('cnt', lambda v, q=q: forall([(0, c.i.nPas)], lambda g: eq(v.arr(c.ex.rids['num'])[g], cnt(g, v.phi(q.d)))))
            yield ('le', lambda v, q=q: forall([(0, c.i.nPas)], lambda g: cnt(g, v.phi(q.d)) <= v.phi(q.d)))
            for m in maxima(lc, q):
                yield ('max', lambda v, q=q, m=m: forall([(0, v.phi(q.d))], lambda e: c.i.elPa[e] <= m(v)))
                yield ('maxle', lambda v, m=m: m(v) <= c.i.nPas - 1)

    def sample(rng):
        n, k = rng.randint(1, 9), rng.randint(1, 4)
        pa = [rng.randrange(k) for _ in range(n)]
        last = rng.randrange(n)
        pa[last] = k - 1
        return dict(n=n, nPas=k, elPa=pa, last=last)
    gf = lambda inp: dict(cnt=lambda p, k: inp['elPa'][:k].count(p))
    return Unit('nPaEls', 'prt.cpp', 'w_nPaEls', [S('n', 'u64', 0, NMAX), S('nPas', 'u64', 0, PMAX), A('elPa', 'u64', n_), S('last', 'u64', 0, NMAX),
                A('num', 'u64', lambda c: c.i.nPas, 'out')],
                lambda c: [('elements per partition', forall([(0, c.i.nPas)], lambda q: eq(c.o.num[q], cnt(q, c.i.n))))],
                req, cfg=CFG, inv=True, cands=cands, sample=sample, axioms=ax, gfuns=gf)


def maxima(lc, q):
    """loop state that may hold a running maximum: phis and modified cells"""
    out = [lambda v, d=p.d: v.phi(d) for p in lc.int_phis() if p.d != q.d]
    for rid in lc.modified:
        reg = lc.st0.mem[rid]
        if reg.kind == 'arr':
            continue
        for off, (x, sz) in list(reg.cells.items()):
            if isinstance(x, int) and not isinstance(x, bool) or t.is_t(x) and x.s == 'I':
                out.append(lambda v, rid=rid, off=off: v.cell(rid, off))
    return out


def send_cut(ex, st, a):
    """the test for send elements is executed, proved to be the ghost of the element and continued with that"""
    name = next(n for n in ex.m.fnraw if '7getElPrE' in n and n.endswith('clEm'))
    out = []
    for s, v in ex.call_fn(st, name, a):
        g = cm(CUR['c'], a[1])
        v = v if isinstance(v, bool) or t.is_t(v) and v.s == 'B' else eq(v, 1)
        ex.oblige('ensures send element', s, t.iff(v, g), name)
        out.append((s, g))
    return out


def el_pr(ty, tg):
    nf = NF[ty]

    def g(c):
        return (c.i.elTg[c.i.mx] + 1) if tg else 1

    def req(c):
        CUR['c'] = c
        n = c.i.n
        return [cm_ok(c, nf), forall([(0, n)], lambda e: c.i.elPa[e] < PMAX), c.i.mx < n, forall([(0, n)], lambda e: c.i.elTg[e] <= c.i.elTg[c.i.mx])]

    def want(c, e):
        return c.i.elPa[e] * 2 * g(c) + ite(cm(c, e), g(c), 0) + (c.i.elTg[e] if tg else 0)

    def ens(c):
        n = c.i.n
        return [('priority: partition, send elements last, time group', forall([(0, n)], lambda e: eq(c.o.pr[e], want(c, e))))]

    def cands(c, lc):
        for q in lc.ivs():
            yield ('pr', lambda v, q=q: forall([(0, v.phi(q.d))], lambda e: eq(v.arr(c.ex.rids['pr'])[e], want(c, e))))
            for m in maxima(lc, q):
                yield ('max', lambda v, q=q, m=m: forall([(0, v.phi(q.d))], lambda e: c.i.elTg[e] <= m(v)))
                yield ('maxle', lambda v, m=m: m(v) <= c.i.elTg[c.i.mx])

    def sample(rng):
        n, _, ad = mesh(rng, ty)
        if not n:
            n, ad = 1, [NONE] * nf
        tgs = [rng.randrange(4) for _ in range(n)]
        pa = [rng.randrange(3) for _ in range(n)]
        return dict(n=n, elFaEl=ad, elPa=pa, cm=[int(pcomm(nf, ad, pa, e)) for e in range(n)], elTg=tgs, mx=tgs.index(max(tgs)))
    return Unit(f'getElPr_{NAME[ty]}_{"lts" if tg else "gts"}', 'prt.cpp', 'w_getElPr',
                [S('ty', 'i32', val=ty), S('tg', 'i32', val=tg), S('n', 'u64', 0, NMAX), A('elFaEl', 'u64', sizes(nf)), A('elPa', 'u64', n_), A('cm', 'u8', n_, hi=1),
                 A('elTg', 'u16', n_, hi=60000), A('pr', 'u64', n_, 'out'), S('mx', 'u64', 0, NMAX)],
                ens, req, cfg=CFG, inv=True, cands=cands, sample=sample, contracts={'7getElPrE.*clEm$': send_cut})


def units():
    return ([is_comm(k) for k in range(5)] + [region(k) for k in range(5)] + [in_se(k, g) for k in range(5) for g in (1, 3)] + [n_els()]
            + [el_pr(k, g) for k in range(5) for g in (0, 1)])
