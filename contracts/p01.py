"""Time-step groups of the mesh tool (tools/edge_v/src/time/Groups.cpp)."""
from fractions import Fraction
from vp.unit import Unit, S, A
from vp import terms as t
from vp.exec import ty_f64, mk_int
from vp.ct import view, havoc
from vp.terms import forall, implies, band, bor, ite, eq, app

CFG = dict(tool='edge_v')
NMAX = 1 << 40
NONE = (1 << 64) - 1
DMAX = Fraction(1.7976931348623157e308)


def adj_ok(c, nf):
    return forall([(0, c.i.n), (0, nf)], lambda e, f: bor(eq(c.i.elFaEl[e * nf + f], NONE), c.i.elFaEl[e * nf + f] < c.i.n))


def lip(arr, ad, n, nf):
    """the group of every element exceeds that of a face-adjacent element by at most one"""
    return forall([(0, n)], lambda e: band(*[bor(eq(ad[e * nf + f], NONE), arr[e] <= arr[ad[e * nf + f]] + 1) for f in range(nf)]))


def lip1(arr, ad, n, nf, f):
    return forall([(0, n)], lambda e: bor(eq(ad[e * nf + f], NONE), arr[e] <= arr[ad[e * nf + f]] + 1))


def modarrs(lc, kind='I'):
    for rid in lc.modified:
        reg = lc.st0.mem[rid]
        if reg.kind == 'arr' and reg.fields[0][1] == kind:
            yield rid, reg


def vals(lc, v):
    """integer-valued loop state: phis and modified cells"""
    for p in lc.int_phis():
        yield v.phi(p.d)


def norm_cands(c, lc):
    nf = c.nf
    from vp.terms import is_t
    for rid, reg in modarrs(lc):
        yield ('<=old', lambda v: forall([(0, c.i.n)], lambda k: v.arr(rid)[k] <= c.i.elTg[k]))
        yield ('>=F', lambda v: forall([(0, c.i.n)], lambda k: c.i.f[k] <= v.arr(rid)[k]))
        bools = lc.bool_phis()
        for q in lc.ivs():
            for p in lc.accs():
                if lc.init[p.d] == 0:
                    for f in range(nf):
                        yield (f'flag{f}', lambda v, p=p, q=q, f=f: implies(eq(v.phi(p.d), 0), lip1(v.arr(rid), c.i.elFaEl, v.phi(q.d), nf, f)))
                    yield ('cnt', lambda v, p=p, q=q: v.phi(p.d) <= nf * v.phi(q.d))
            for p in bools:
                yield ('flagT', lambda v, p=p, q=q: implies(v.phi(p.d), lip(v.arr(rid), c.i.elFaEl, v.phi(q.d), nf)))
                yield ('flagF', lambda v, p=p, q=q: implies(t.bnot(v.phi(p.d)), lip(v.arr(rid), c.i.elFaEl, v.phi(q.d), nf)))


def lfp(n, nf, ad, old):
    tg = list(old)
    ch = True
    while ch:
        ch = False
        for e in range(n):
            for f in range(nf):
                a = ad[e * nf + f]
                if a != NONE and tg[e] > tg[a] + 1:
                    tg[e] = tg[a] + 1
                    ch = True
    return tg


NF = {0: 2, 1: 3, 2: 4, 3: 4, 4: 6}


def mesh(rng, ty, nmax=9):
    nf = NF[ty]
    if rng.random() < .4:
        # path with (mostly) descending numbering
        n = rng.randint(2, 40)
        ad = [NONE] * (n * nf)
        order = list(range(n))[::rng.choice([1, -1])]
        if rng.random() < .3:
            rng.shuffle(order)
        for x, y in zip(order, order[1:]):
            ad[x * nf + nf - 1], ad[y * nf] = y, x
        return n, nf, ad
    n = rng.randint(0, nmax)
    ad = [NONE] * (n * nf)
    for _ in range(rng.randint(0, 2 * n)):
        a, b = rng.randrange(n), rng.randrange(n)
        fa, fb = rng.randrange(nf), rng.randrange(nf)
        if a != b and ad[a * nf + fa] == NONE and ad[b * nf + fb] == NONE:
            ad[a * nf + fa] = b
            ad[b * nf + fb] = a
    return n, nf, ad


def norm_unit(ty):
    nf = NF[ty]

    def req(c):
        c.nf = nf
        return [adj_ok(c, nf), lip(c.i.f, c.i.elFaEl, c.i.n, nf), forall([(0, c.i.n)], lambda k: c.i.f[k] <= c.i.elTg[k])]

    def ens(c):
        return [('neighbouring groups differ by at most one', lip(c.o.elTg, c.i.elFaEl, c.i.n, nf)),
                ('no element is moved to a faster-rate-violating (larger) group', forall([(0, c.i.n)], lambda k: c.o.elTg[k] <= c.i.elTg[k])),
                ('no smaller than any admissible assignment', forall([(0, c.i.n)], lambda k: c.i.f[k] <= c.o.elTg[k]))]

    def sample(rng):
        n, nf_, ad = mesh(rng, ty)
        top = rng.choice([7, 60])
        old = [rng.randint(0, top) if rng.random() < .5 else top for _ in range(n)]
        if n and rng.random() < .5:
            old = [top] * n
            old[rng.choice([0, n - 1, rng.randrange(n)])] = 0
        return dict(n=n, elFaEl=ad, elTg=old, f=lfp(n, nf, ad, old))
    return Unit(f'normalize_{["line", "tria3", "quad4r", "tet4", "hex8r"][ty]}', 'groups.cpp', 'w_normalize',
                [S('ty', 'i32', val=ty), S('n', 'u64', 0, NMAX), A('elFaEl', 'u64', lambda c: c.i.n * nf),
                 A('elTg', 'u16', lambda c: c.i.n, 'io', hi=60000), A('f', 'u16', lambda c: c.i.n)],
                ens, req, ret='u64', cfg=CFG, inv=True, cands=norm_cands, sample=sample)


def group_of(c, e, g, ivl, ts):
    return band(ts[e] < ivl[g + 1], forall([(0, g)], lambda h: ts[e] >= ivl[h + 1]))


def set_unit():
    def req(c):
        n, g = c.i.n, c.i.nGroups
        return [forall([(0, n)], lambda e: c.i.tsCfl[e] < c.i.tsGroups[g])]

    def ens(c):
        n, g = c.i.n, c.i.nGroups
        return [('group in range', forall([(0, n)], lambda e: c.o.elTg[e] < g)),
                ('time step below the end of the interval', forall([(0, n)], lambda e: c.i.tsCfl[e] < c.i.tsGroups[c.o.elTg[e] + 1])),
                ('time step not below the start of the interval', forall([(0, n)], lambda e: forall(
                    [(0, c.o.elTg[e])], lambda h: c.i.tsCfl[e] >= c.i.tsGroups[h + 1])))]

    def cands(c, lc):
        for rid, reg in modarrs(lc):
            for q in lc.int_phis():
                yield ('done', lambda v, q=q: forall([(0, v.phi(q.d))], lambda e: band(
                    v.arr(rid)[e] < c.i.nGroups, c.i.tsCfl[e] < c.i.tsGroups[v.arr(rid)[e] + 1],
                    forall([(0, v.arr(rid)[e])], lambda h: c.i.tsCfl[e] >= c.i.tsGroups[h + 1]))))
        for q in lc.int_phis():
            for e in lc.outer_ivs():
                yield ('scan', lambda v, q=q, e=e: forall([(0, v.phi(q.d))], lambda h: c.i.tsCfl[e] >= c.i.tsGroups[h + 1]))
                for rid in c.ex.rids.values():
                    pass

    def sample(rng):
        n, g = rng.randint(0, 8), rng.randint(1, 5)
        iv = [rng.choice([.5, 1.0])]
        for _ in range(g):
            iv.append(iv[-1] * rng.choice([1.25, 1.5, 2.0]))
        ts = [rng.choice(iv[:-1] + [rng.uniform(iv[0], iv[-1] * .999)]) for _ in range(n)]
        return dict(n=n, nGroups=g, tsGroups=iv, tsCfl=ts)
    return Unit('setElTg', 'groups.cpp', 'w_setElTg',
                [S('n', 'u64', 0, NMAX), S('nGroups', 'u16', 1, 60000), A('tsGroups', 'f64', lambda c: c.i.nGroups + 1),
                 A('tsCfl', 'f64', lambda c: c.i.n), A('elTg', 'u16', lambda c: c.i.n, 'out')],
                ens, req, cfg=CFG, inv=True, cands=cands, sample=sample)


def cnt(tg, k):
    return app('cnt', (tg, k), 'I')


def ngroup_unit():
    def req(c):
        return [forall([(c.i.first, c.i.first + c.i.n)], lambda e: c.i.elTg[e] < c.i.nGroups)]

    def ax(c):
        first, n, g = c.i.first, c.i.n, c.i.nGroups
        return [forall([(0, g)], lambda q: eq(cnt(q, first), 0)),
                forall([(0, g), (first, first + n)], lambda q, k: eq(cnt(q, k + 1), cnt(q, k) + ite(eq(c.i.elTg[k], q), 1, 0)))]

    def ens(c):
        return [('number of elements per group', forall([(0, c.i.nGroups)], lambda q: eq(c.o.cnt[q], cnt(q, c.i.first + c.i.n))))]

    def cands(c, lc):
        for rid, reg in modarrs(lc):
            for q in lc.int_phis():
                yield ('zero', lambda v, q=q: forall([(0, v.phi(q.d))], lambda g: eq(v.arr(rid)[g], 0)))
                yield ('cnt', lambda v, q=q: forall([(0, c.i.nGroups)], lambda g: eq(v.arr(rid)[g], cnt(g, v.phi(q.d)))))
                yield ('le', lambda v, q=q: forall([(0, c.i.nGroups)], lambda g: cnt(g, v.phi(q.d)) <= v.phi(q.d) - c.i.first))

    def sample(rng):
        n, f, g = rng.randint(0, 9), rng.randint(0, 3), rng.randint(1, 4)
        return dict(n=n, first=f, nGroups=g, elTg=[rng.randrange(g) for _ in range(n + f)])
    u = Unit('nGroupEls', 'groups.cpp', 'w_nGroupEls',
             [S('first', 'u64', 0, NMAX), S('n', 'u64', 0, NMAX), S('nGroups', 'u16', 0, 60000),
              A('elTg', 'u16', lambda c: c.i.first + c.i.n), A('cnt', 'u64', lambda c: c.i.nGroups, 'out')],
             ens, req, cfg=CFG, inv=True, cands=cands, sample=sample, axioms=ax)
    return u


def one(x):
    return Fraction(1) / x


def loads_unit():
    def ax(c):
        n = c.i.n
        sg, sp = (lambda k: app('sg', (k,), 'R')), (lambda k: app('sp', (k,), 'R'))
        return [eq(sg(0), 0), eq(sp(0), 0),
                forall([(0, n)], lambda k: eq(sg(k + 1), sg(k) + one(c.i.tsGroups[c.i.elTg[k]]))),
                forall([(0, n)], lambda k: eq(sp(k + 1), sp(k) + one(c.i.tsCfl[k])))]

    def req(c):
        n = c.i.n
        return [forall([(0, n)], lambda e: band(c.i.elTg[e] < c.i.nGroups, c.i.tsGroups[c.i.elTg[e]] > 0, c.i.tsCfl[e] > 0))]

    def ens(c):
        n = c.i.n
        return [('global time stepping: one update per element', eq(c.o.loads[0], t.toreal(n))),
                ('grouped: reciprocals of the group time steps', eq(c.o.loads[1], app('sg', (n,), 'R'))),
                ('per element: reciprocals of the time steps', eq(c.o.loads[2], app('sp', (n,), 'R')))]

    def cands(c, lc):
        from vp import exec as X
        rid = c.ex.rids['loads']
        for q in lc.int_phis():
            for off, f in ((8, 'sg'), (16, 'sp')):
                yield (f, lambda v, q=q, off=off, f=f: eq(v.cell(rid, off), app(f, (v.phi(q.d),), 'R')))

    def sample(rng):
        n, g = rng.randint(0, 9), rng.randint(1, 4)
        return dict(n=n, nGroups=g, tsGroups=[rng.choice([.5, 1, 2, 3.0]) * (k + 1) for k in range(g)],
                    elTg=[rng.randrange(g) for _ in range(n)], tsCfl=[rng.uniform(.5, 9) for _ in range(n)])

    def gf(inp):
        return dict(sg=lambda k: sum(1 / inp['tsGroups'][g] for g in inp['elTg'][:k]), sp=lambda k: sum(1 / x for x in inp['tsCfl'][:k]))
    return Unit('getLoads', 'groups.cpp', 'w_getLoads',
                [S('n', 'u64', 0, NMAX), S('nGroups', 'u16', 0, 60000), A('tsCfl', 'f64', lambda c: c.i.n),
                 A('tsGroups', 'f64', lambda c: c.i.nGroups), A('elTg', 'u16', lambda c: c.i.n), A('loads', 'f64', 3, 'out')],
                ens, req, cfg=CFG, inv=True, cands=cands, sample=sample, axioms=ax, gfuns=gf)


GR = '_ZN6edge_v4time6Groups'


def ctor_unit(ty):
    """the constructor: time step intervals, assignment, normalization and counts, against the contracts of its callees"""
    nf = NF[ty]
    iv = lambda k: app('iv', (k,), 'R')

    def ax(c):
        r = c.i.nRates
        return [eq(iv(0), c.i.funDt), eq(iv(r + 1), DMAX), forall([(0, r)], lambda k: eq(iv(k + 1), iv(k) * c.i.rates[k]))]

    def req(c):
        n, r = c.i.n, c.i.nRates
        return [adj_ok(c, nf), lip(c.i.f, c.i.elFaEl, n, nf), forall([(0, r)], lambda k: band(c.i.rates[k] > 1, c.i.rates[k] <= 2)),
                c.i.funDt > 0, c.i.funDt <= 1, c.i.first + c.i.num <= n,
                forall([(0, n)], lambda e: c.i.ts[e] < DMAX),
                forall([(0, n)], lambda e: band(c.i.f[e] <= r, forall([(0, c.i.f[e])], lambda h: c.i.ts[e] >= iv(h + 1))))]

    def in_group(c, arr, e):
        return band(arr[e] <= c.i.nRates, forall([(0, arr[e])], lambda h: c.i.ts[e] >= iv(h + 1)))

    def ens(c):
        n, r = c.i.n, c.i.nRates
        co, ci = c.o, c.i
        sym = getattr(c, 'sym', True)
        g = c.ex.ghost if sym else None
        out = [('number of groups', eq(co.nGroups[0], r + 1)),
               ('intervals: first time step times the rates, the last one is unbounded', forall([(0, r + 2)], lambda k: eq(co.int[k], iv(k)))),
               ('no element is in a group that exceeds its time step', forall([(0, n)], lambda e: in_group(c, co.elTg, e))),
               ('neighbouring groups differ by at most one', lip(co.elTg, ci.elFaEl, n, nf)),
               ('groups are as large as possible', forall([(0, n)], lambda e: ci.f[e] <= co.elTg[e])),
               ('elements per group of all elements', forall([(0, r + 1)], lambda k: eq(co.nGroupEls[k], app('all', (k,), 'I')))),
               ('elements per group of a range', forall([(0, r + 1)], lambda k: eq(co.part[k], app('part', (k,), 'I')))),
               ('load of global time stepping', eq(co.loads[0], t.toreal(n))),
               ('load of grouped time stepping', eq(co.loads[1], app('load0', (), 'R') if sym else app('load0', (), 'R'))),
               ('load after normalization', eq(co.loads[2], app('load1', (), 'R'))),
               ('load of elements', eq(co.loads[3], app('loadP', (), 'R')))]
        if sym:
            # what the ghost functions count: the groups before (load0) and after the normalization
            out.insert(0, ('loads and counts refer to the groups before and after the normalization', g['bad'] == []))
            for nm in ('all', 'part', 'load1'):
                out.insert(1, (f'{nm}: final groups', forall([(0, n)], lambda e: eq(g[nm][e], co.elTg[e])) if nm in g else False))
            out.insert(1, ('load0: groups of the time steps', forall([(0, n)], lambda e: eq(g['load0'][e], g['set'][e])) if 'load0' in g else False))
        return out

    def contracts(cell):
        def cur(ex):
            if not hasattr(ex, 'ghost') or ex.ghost is None:
                ex.ghost = dict(bad=[])
            return ex.ghost

        def c_set(ex, st, a):
            n, g, ivp, tsp, tgp = a
            c = cell['c']
            ivv, ts, gh = view(ex, st, ivp), view(ex, st, tsp), cur(ex)
            ex.oblige('precondition', st, band(g <= ivv.n - 1, n <= ts.n, g >= 1), 'setElTg')
            ex.oblige('precondition', st, forall([(0, n)], lambda e: ts[e] < ivv[g]), 'setElTg')
            if a[4].r in (ivp.r, tsp.r):
                gh['bad'].append('alias')
            o = havoc(ex, st, tgp, mk_int(16))
            ex.oblige('precondition', st, n <= o.n, 'setElTg')
            ex.assume(st, forall([(0, n)], lambda e: band(o[e] < g, ts[e] < ivv[o[e] + 1], forall([(0, o[e])], lambda h: ts[e] >= ivv[h + 1]))))
            gh['set'] = o
            return 0

        def c_norm(ex, st, a):
            ety, n, ad, tg = a
            c, gh = cell['c'], cur(ex)
            adv, old = view(ex, st, ad), view(ex, st, tg)
            f = c.i.f
            ex.oblige('precondition', st, band(eq(ety, cell['ety']), eq(n, c.i.n), n * nf <= adv.n, n <= old.n), 'normalizeElTgs')
            ex.oblige('precondition', st, forall([(0, n)], lambda e: f[e] <= old[e]), 'normalizeElTgs')
            ex.oblige('precondition', st, forall([(0, n)], lambda e: old[e] <= 60000), 'normalizeElTgs')
            ex.oblige('precondition', st, forall([(0, n), (0, nf)], lambda e, fa: bor(eq(adv[e * nf + fa], NONE), adv[e * nf + fa] < n)), 'normalizeElTgs')
            o = havoc(ex, st, tg)
            ex.assume(st, lip(o, adv, n, nf))
            ex.assume(st, forall([(0, n)], lambda e: o[e] <= old[e]))
            ex.assume(st, forall([(0, n)], lambda e: f[e] <= o[e]))
            return t.ivar(t.fresh_name('nNorm'), 0, (1 << 64) - 1)

        def c_n(ex, st, a):
            first, n, g, tg, out = a
            c, gh = cell['c'], cur(ex)
            tgv = view(ex, st, tg)
            ex.oblige('precondition', st, first + n <= tgv.n, 'nGroupEls')
            ex.oblige('precondition', st, forall([(first, first + n)], lambda e: tgv[e] < g), 'nGroupEls')
            o = havoc(ex, st, out, mk_int(64))
            ex.oblige('precondition', st, g <= o.n, 'nGroupEls')
            nm = 'all' if 'all' not in gh else 'part'
            ex.oblige('precondition', st, band(eq(first, 0), eq(n, c.i.n)) if nm == 'all' else band(eq(first, c.i.first), eq(n, c.i.num)), 'range of nGroupEls')
            gh[nm] = tgv
            ex.assume(st, forall([(0, g)], lambda k: eq(o[k], app(nm, (k,), 'I'))))
            return 0

        def c_load(ex, st, a):
            n, ts, ivp, tg, o0, o1, o2 = a
            c, gh = cell['c'], cur(ex)
            ivv, tsv, tgv = view(ex, st, ivp), view(ex, st, ts), view(ex, st, tg)
            ex.oblige('precondition', st, eq(n, c.i.n), 'getLoads')
            ex.oblige('precondition', st, forall([(0, n)], lambda e: tgv[e] < ivv.n), 'getLoads')
            ex.oblige('precondition', st, forall([(0, n)], lambda e: eq(tsv[e], c.i.ts[e])), 'getLoads')
            ex.oblige('precondition', st, forall([(0, c.i.nRates + 2)], lambda k: eq(ivv[k], iv(k))), 'getLoads')
            nm = 'load0' if 'load0' not in gh else 'load1'
            gh[nm] = tgv
            ex.store_(st, o0, t.toreal(n), ty_f64)
            ex.store_(st, o1, app(nm, (), 'R'), ty_f64)
            ex.store_(st, o2, app('loadP', (), 'R'), ty_f64)
            return 0
        return {f'^{GR}7setElTgE': c_set, f'^{GR}14normalizeElTgsE': c_norm, f'^{GR}9nGroupElsEmmtPKtPm$': c_n, f'^{GR}8getLoadsE': c_load}

    cell = dict(ety={0: 1, 1: 3, 2: 2, 3: 5, 4: 4}[ty])

    def cands(c, lc):
        for rid, reg in modarrs(lc, 'R'):
            yield ('iv0', lambda v: eq(v.arr(rid)[0], iv(0)))
            yield ('ivE', lambda v: eq(v.arr(rid)[c.i.nRates + 1], DMAX))
            for q in lc.int_phis():
                yield ('iv', lambda v, q=q: forall([(0, v.phi(q.d) + 1)], lambda k: eq(v.arr(rid)[k], iv(k))))
                yield ('cp', lambda v, q=q: forall([(0, v.phi(q.d))], lambda k: eq(v.arr(rid)[k], iv(k))))
        for rid, reg in modarrs(lc):
            for q in lc.int_phis():
                for nm in ('all', 'load1'):
                    g = getattr(c.ex, 'ghost', None)
                    if g and nm in g:
                        yield ('cp', lambda v, q=q, nm=nm: forall([(0, v.phi(q.d))], lambda k: eq(v.arr(rid)[k], g[nm][k])))
                yield ('cn', lambda v, q=q: forall([(0, v.phi(q.d))], lambda k: eq(v.arr(rid)[k], app('all', (k,), 'I'))))

    def ref(inp):
        r = inp['nRates']
        ivs = [inp['funDt']]
        for k in range(r):
            ivs.append(ivs[-1] * inp['rates'][k])
        ivs.append(float(DMAX))
        g0 = [next(g for g in range(r + 1) if x < ivs[g + 1]) for x in inp['ts']]
        return ivs, g0, lfp(inp['n'], nf, inp['elFaEl'], g0)

    def gf(inp):
        ivs, g0, g1 = ref(inp)
        ld = lambda gs: sum(1 / ivs[g] for g in gs)
        p = g1[inp['first']:inp['first'] + inp['num']]
        return dict(iv=lambda k: Fraction(ivs[k]), all=lambda k: g1.count(k), part=lambda k: p.count(k), load0=lambda: ld(g0), load1=lambda: ld(g1),
                    loadP=lambda: sum(1 / x for x in inp['ts']))

    def sample(rng):
        n, nf_, ad = mesh(rng, ty)
        r = rng.randint(0, 4)
        inp = dict(n=n, elFaEl=ad, nRates=r, rates=[rng.choice([1.25, 1.5, 2.0, 1.9]) for _ in range(r)], funDt=rng.choice([.5, .75, 1.0]))
        inp['ts'] = [rng.choice([inp['funDt'], 1.0, 1.0 + rng.random() * 3, 20 * rng.random() + 1]) for _ in range(n)]
        inp['first'] = rng.randint(0, n)
        inp['num'] = rng.randint(0, n - inp['first'])
        inp['f'] = ref(inp)[2]
        return inp
    n_ = lambda c: c.i.n
    u = Unit(f'groups_{["line", "tria3", "quad4r", "tet4", "hex8r"][ty]}', 'groups.cpp', 'w_groups',
             [S('ty', 'i32', val=ty), S('n', 'u64', 0, NMAX), A('elFaEl', 'u64', lambda c: c.i.n * nf), S('nRates', 'u16', 0, 50000),
              A('rates', 'f64', lambda c: c.i.nRates), S('funDt', 'f64'), A('ts', 'f64', n_), A('f', 'u16', n_), A('elTg', 'u16', n_, 'out'),
              A('int', 'f64', lambda c: c.i.nRates + 2, 'out'), A('nGroupEls', 'u64', lambda c: c.i.nRates + 1, 'out'), A('nGroups', 'u16', 1, 'out'),
              S('first', 'u64', 0, NMAX), S('num', 'u64', 0, NMAX), A('part', 'u64', lambda c: c.i.nRates + 1, 'out'), A('loads', 'f64', 4, 'out')],
             ens, lambda c: cell.update(c=c) or req(c), cfg=CFG, inv=True, cands=cands, sample=sample, axioms=ax, gfuns=gf, contracts=contracts(cell))
    return u


def units():
    return [norm_unit(k) for k in range(5)] + [set_unit(), ngroup_unit(), loads_unit()] + [ctor_unit(k) for k in range(5)]
