"""Discharges obligations: syntactic check, polynomial/rational normal form (exact identities),
z3 (linear/nonlinear arithmetic, arrays, quantifiers), cvc5 as second opinion."""
import re
import time
import z3
from fractions import Fraction
from . import terms as t
from .terms import T, is_t

z3.set_param('smt.random_seed', 1)

# ------------------------------------------------------------------ lowering to z3


class Lower:
    def __init__(self):
        self.memo = {}
        self.side = []      # side constraints (sqrt axioms)
        self.rngs = []      # atom ranges
        self.keep = []

    def sort(self, s):
        if s == 'I':
            return z3.IntSort()
        if s == 'R':
            return z3.RealSort()
        if s == 'B':
            return z3.BoolSort()
        return z3.ArraySort(z3.IntSort(), self.sort(s[1:]))

    def lit(self, v, s=None):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        return z3.RealVal(str(Fraction(v)))

    def __call__(self, u, bound=frozenset()):
        if not is_t(u):
            return self.lit(u)
        m = self.memo.get(u.i)
        if m is not None:
            return m
        st = [u]
        while st:
            x = st[-1]
            if x.i in self.memo:
                st.pop()
                continue
            ks = [k for k in t.children(x) if k.i not in self.memo]
            if ks:
                st.extend(ks)
                continue
            self.memo[x.i] = self.lower1(x)
            st.pop()
        return self.memo[u.i]

    def g(self, v):
        if is_t(v):
            return self.memo[v.i]
        return self.lit(v)

    def lower1(self, u):
        op, a, g = u.op, u.a, self.g
        if op == 'var':
            return z3.Const(a[0] + ':' + u.s, self.sort(u.s))
        if op == 'lin':
            ts = [z3.IntVal(a[0])] if a[0] else []
            for x, k in a[1]:
                ts.append(g(x) if k == 1 else k * g(x))
            return z3.Sum(ts) if len(ts) > 1 else ts[0]
        if op == 'imul':
            r = g(a[0])
            for x in a[1:]:
                r = r * g(x)
            return r
        if op == 'idiv':
            return g(a[0]) / g(a[1])
        if op == 'imod':
            return g(a[0]) % g(a[1])
        if op == 'radd':
            return g(a[0]) + g(a[1])
        if op == 'rmul':
            return g(a[0]) * g(a[1])
        if op == 'rdiv':
            return g(a[0]) / g(a[1])
        if op == 'sqrt':
            return z3.Real(f'sqrt!{u.i}')
        if op == 'toreal':
            return z3.ToReal(g(a[0]))
        if op == 'ite':
            return z3.If(g(a[0]), g(a[1]), g(a[2]))
        if op == 'and':
            return z3.And([g(x) for x in a])
        if op == 'not':
            return z3.Not(g(a[0]))
        if op == 'ile0':
            return self.cmp(a[0], lambda l, r: l <= r)
        if op == 'ieq0':
            return self.cmp(a[0], lambda l, r: l == r)
        if op == 'rlt':
            return g(a[0]) < g(a[1])
        if op == 'rle':
            return g(a[0]) <= g(a[1])
        if op == 'req' or op == 'aeq':
            return g(a[0]) == g(a[1])
        if op == 'sel':
            r = z3.Select(g(a[0]), g(a[1]))
            return r
        if op == 'store':
            return z3.Store(g(a[0]), g(a[1]), g(a[2]))
        if op == 'karr':
            return z3.K(z3.IntSort(), g(a[0]))
        if op in ('app', 'rfun'):
            args = [g(x) for x in a[1:]]
            f = z3.Function(a[0] + f'/{len(args)}', *[x.sort() for x in args], self.sort(u.s))
            return f(*args)
        if op == 'forall':
            vs = [self.memo.get(v.i) if v.i in self.memo else z3.Const(v.a[0] + ':I', z3.IntSort()) for v in a[0]]
            gs = []
            for v, (lo, hi) in zip(vs, a[1]):
                gs += [g(lo) <= v, v < g(hi)]
            body = z3.Implies(z3.And(gs), g(a[2]))
            # range facts of element reads below the binder
            return z3.ForAll(vs, body)
        raise NotImplementedError(op)

    def cmp(self, l, f):
        c, d = t._lin(l)
        pos = [(a, k) for a, k in d.items() if k > 0]
        neg = [(a, -k) for a, k in d.items() if k < 0]
        s1 = [self.g(a) if k == 1 else k * self.g(a) for a, k in pos] + ([z3.IntVal(c)] if c > 0 else [])
        s2 = [self.g(a) if k == 1 else k * self.g(a) for a, k in neg] + ([z3.IntVal(-c)] if c < 0 else [])
        z = lambda s: z3.IntVal(0) if not s else (s[0] if len(s) == 1 else z3.Sum(s))
        return f(z(s1), z(s2))

    def range(self, r, u):
        if u.lo is not None:
            self.rngs.append(r >= u.lo)
        if u.hi is not None:
            self.rngs.append(r <= u.hi)


class LinLower(Lower):
    """products and quotients of variable terms as uninterpreted (commutative) functions: fewer facts, linear arithmetic"""

    def lower1(self, u):
        if u.op == 'rmul' and is_t(u.a[0]) and is_t(u.a[1]):
            x, y = sorted(u.a, key=lambda k: k.i)
            f = z3.Function('rmul#', z3.RealSort(), z3.RealSort(), z3.RealSort())
            return f(self.g(x), self.g(y))
        if u.op == 'rdiv' and is_t(u.a[1]):
            f = z3.Function('rdiv#', z3.RealSort(), z3.RealSort(), z3.RealSort())
            return f(self.g(u.a[0]), self.g(u.a[1]))
        if u.op == 'sqrt':
            return z3.Function('sqrt#', z3.RealSort(), z3.RealSort())(self.g(u.a[0]))
        return super().lower1(u)


class MonoLower(Lower):
    """real terms as polynomials in normal form; every monomial is a variable of its own with a few sign facts: linear arithmetic.
    Sound: only facts that hold for all reals are added.  One instance per query (the facts are collected)."""
    CAP = 4000

    def __init__(self):
        super().__init__()
        self.pm = {}
        self.vars = {}
        self.kids = {}
        self.sqs = {}
        self.invs = {}
        self.mons = {}
        self.facts = []
        self.pz = {}

    def kid(self, k):
        return self.kids.setdefault(k, -1 - len(self.kids))

    def atom(self, k, z):
        self.vars.setdefault(k, z)
        return {((k, 1),): Fraction(1)}

    def mul(self, a, b):
        if len(a) * len(b) > 400000:
            raise TooBig
        r = pmul(a, b)
        if len(r) > self.CAP:
            raise TooBig
        while True:
            hit = [(m, c) for m, c in r.items() if any(e >= 2 and v in self.sqs for v, e in m)]
            if not hit:
                return r
            for m, c in hit:
                del r[m]
            for m, c in hit:
                x = {(): c}
                for v, e in m:
                    if v in self.sqs:
                        for _ in range(e // 2):
                            x = pmul(x, self.sqs[v])
                        e = e % 2
                    if e:
                        x = pmul(x, {((v, e),): Fraction(1)})
                r = padd(r, x)
                if len(r) > self.CAP:
                    raise TooBig

    def poly(self, u):
        if not is_t(u):
            c = Fraction(u)
            return {(): c} if c else {}
        p = self.pm.get(u.i)
        if p is None:
            op = u.op
            if op == 'radd':
                p = padd(self.poly(u.a[0]), self.poly(u.a[1]))
                if len(p) > self.CAP:
                    raise TooBig
            elif op == 'rmul':
                p = self.mul(self.poly(u.a[0]), self.poly(u.a[1]))
            elif op == 'rdiv':
                d = self.poly(u.a[1])
                n = self.poly(u.a[0])
                if not d:
                    p = self.atom(u.i, z3.Real(f'div0!{u.i}'))
                elif len(d) == 1 and () in d:
                    p = {m: c / d[()] for m, c in n.items()}
                else:
                    k = self.kid(('inv', pkey(d)))
                    if k not in self.vars:
                        r = z3.Real(f'inv!{len(self.vars)}')
                        self.vars[k] = r
                        dz = self.z(d)
                        self.facts += [z3.Implies(dz > 0, r > 0), z3.Implies(dz < 0, r < 0)]
                        self.invs[k] = d
                    # x/0 is any value: the quotient is x*inv(0) with an arbitrary inv(0); the solver's x/0 is arbitrary as well
                    p = self.mul(n, {((k, 1),): Fraction(1)})
            elif op == 'sqrt':
                d = self.poly(u.a[0])
                k = self.kid(('sq', pkey(d)))
                if k not in self.vars:
                    r = z3.Real(f'sq!{len(self.vars)}')
                    self.vars[k] = r
                    dz = self.z(d)
                    self.facts += [r >= 0, z3.Implies(dz > 0, r > 0), z3.Implies(dz == 0, r == 0)]
                    for k2 in list(self.sqs)[:6]:
                        d2, r2 = self.z(self.sqs[k2]), self.vars[k2]
                        self.facts += [z3.Implies(z3.And(dz >= 0, dz < d2), r < r2), z3.Implies(z3.And(d2 >= 0, d2 < dz), r2 < r)]
                    self.sqs[k] = d
                p = {((k, 1),): Fraction(1)}
            else:
                p = self.atom(u.i, super().lower1(u))
            self.pm[u.i] = p
        return p

    def mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.vars[m[0][0]]
        z = self.mons.get(m)
        if z is None:
            z = self.mons[m] = z3.Real(f'mono!{len(self.mons)}')
            if len(m) == 1:
                x = self.vars[m[0][0]]
                if m[0][1] == 2:
                    self.facts += [z >= 0, z3.Implies(x == 0, z == 0), z3.Implies(x != 0, z > 0)]
            elif len(m) == 2 and m[0][1] == m[1][1] == 1:
                x, y = self.vars[m[0][0]], self.vars[m[1][0]]
                self.facts += [z3.Implies(z3.And(x > 0, y > 0), z > 0), z3.Implies(z3.And(x < 0, y < 0), z > 0),
                               z3.Implies(z3.And(x > 0, y < 0), z < 0), z3.Implies(z3.And(x < 0, y > 0), z < 0),
                               z3.Implies(z3.Or(x == 0, y == 0), z == 0)]
            if all(e % 2 == 0 for _, e in m):
                self.facts.append(z >= 0)
        return z

    def z(self, p):
        k = pkey(p)
        r = self.pz.get(k)
        if r is None:
            ts = []
            for m, c in p.items():
                if not m:
                    ts.append(self.lit(c))
                else:
                    v = self.mono(m)
                    ts.append(v if c == 1 else self.lit(c) * v)
            r = z3.RealVal(0) if not ts else (ts[0] if len(ts) == 1 else z3.Sum(ts))
            self.pz[k] = r
        return r

    def lower1(self, u):
        if u.s == 'R':
            return self.z(self.poly(u))
        if u.op in ('rlt', 'rle', 'req'):
            d = padd(self.poly(u.a[0]), self.poly(u.a[1]), -1)
            d0 = d.pop((), Fraction(0))
            l, r = self.z(d), self.lit(-d0)
            return l < r if u.op == 'rlt' else (l <= r if u.op == 'rle' else l == r)
        return super().lower1(u)

    def finish(self):
        for k, d in list(self.invs.items()):
            one = self.mul(d, {((k, 1),): Fraction(1)})
            if len(d) < 200:
                self.facts.append(z3.Implies(self.z(d) != 0, self.z(one) == 1))
        return self.facts


def nonlinear(f, memo={}):
    r = memo.get(f.i)
    if r is None:
        r = memo[f.i] = bool(t.atoms(f, lambda u: u.op == 'rmul' and is_t(u.a[0]) and is_t(u.a[1]) or u.op == 'rdiv' and is_t(u.a[1])))
    return r


def elem_ranges(fs):
    """range facts for array element reads (sound: machine integers are in range)"""
    out = []
    seen = set()
    qv = set()
    for f in fs:
        for q in t.atoms(f, lambda u: u.op == 'forall'):
            qv.update(v.i for v in q.a[0])
    for f in fs:
        for u in t.atoms(f, lambda u: u.op in ('sel', 'app', 'imod', 'idiv', 'imul') and u.s == 'I'):
            if u.i in seen:
                continue
            seen.add(u.i)
            if u.lo is None and u.hi is None:
                continue
            if any(v.i in qv for v in t.vars_of(u)):
                continue
            if u.lo is not None:
                out.append(t.mk('ile0', (t.isub(u.lo, u),), 'B'))
            if u.hi is not None:
                out.append(t.mk('ile0', (t.isub(u, u.hi),), 'B'))
    return out


LOW = Lower()
_hv = {}
LOWL = LinLower()
_info = {}
_side = {}


def info(f):
    """atoms of f that carry side conditions; (quantifiers, arrays, integers, uninterpreted reals) flags"""
    r = _info.get(f.i)
    if r is not None:
        return r
    quant = arr = ints = rf = False
    qv = set()
    at = []
    for u in t.atoms(f, lambda u: True):
        if u.op == 'forall':
            quant = True
            qv.update(v.i for v in u.a[0])
        if u.op in ('sel', 'store', 'app', 'rfun'):
            arr = True
            rf = rf or u.op == 'rfun'
        if u.s == 'I':
            ints = True
            if (u.lo is not None or u.hi is not None) and u.op in ('var', 'sel', 'app', 'imod', 'idiv', 'imul', 'ite'):
                at.append(u)
        elif u.op == 'sqrt':
            at.append(u)
    if qv:
        at = [u for u in at if not any(v.i in qv for v in t.vars_of(u))]
    r = (at, (quant, arr, ints, rf))
    _info[f.i] = r
    return r


def side(u):
    r = _side.get(u.i)
    if r is None:
        z = LOW(u)
        if u.op == 'sqrt':
            x = LOW(u.a[0])
            r = [z3.Implies(x >= 0, z3.And(z >= 0, z * z == x))]
        else:
            r = []
            if u.lo is not None:
                r.append(z >= u.lo)
            if u.hi is not None:
                r.append(z <= u.hi)
        _side[u.i] = r
    return r


# ------------------------------------------------------------------ polynomial normal form
class TooBig(Exception):
    pass


LIMIT = 60000


def pmul(p, q):
    if len(p) * len(q) > LIMIT * 8:
        raise TooBig
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                d = dict(m1)
                for v, e in m2:
                    d[v] = d.get(v, 0) + e
                m = tuple(sorted(d.items()))
            c = r.get(m, 0) + c1 * c2
            if c:
                r[m] = c
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise TooBig
    return r


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + k * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


class NF:
    """num / prod(factor^e): factors are polynomials kept unexpanded"""

    def __init__(self, nz=None):
        self.memo = {}
        self.fac = {}       # key -> poly
        self.sq = {}        # var id -> (num poly, den)
        self.atoms = {}

    def factor(self, p):
        # normalise leading coefficient
        if not p:
            raise ZeroDivisionError
        ms = min(p)
        c = p[ms]
        q = {m: v / c for m, v in p.items()}
        if len(q) == 1:
            # monomial: split into variable factors
            (m, _), = q.items()
            out = {}
            for v, e in m:
                k = ((((v, 1),), Fraction(1)),)
                self.fac[k] = {((v, 1),): Fraction(1)}
                out[k] = e
            return c, out
        k = pkey(q)
        self.fac[k] = q
        return c, {k: 1}

    def mulfac(self, p, d):
        for k, e in d.items():
            for _ in range(e):
                p = pmul(p, self.fac[k])
        return p

    def addr(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if d1 == d2:
            return self.red((padd(n1, n2), d1))
        d = dict(d1)
        for k, e in d2.items():
            d[k] = max(d.get(k, 0), e)
        m1 = {k: e - d1.get(k, 0) for k, e in d.items() if e > d1.get(k, 0)}
        m2 = {k: e - d2.get(k, 0) for k, e in d.items() if e > d2.get(k, 0)}
        return self.red((padd(self.mulfac(n1, m1), self.mulfac(n2, m2)), d))

    def mulr(self, a, b):
        d = dict(a[1])
        for k, e in b[1].items():
            d[k] = d.get(k, 0) + e
        return self.red((pmul(a[0], b[0]), d))

    def red(self, r):
        """replace s^2 by its argument for square-root atoms; cancel variable factors"""
        n, d = r
        if not n:
            return {}, {}
        if self.sq:
            todo = {}
            base = {}
            for m, c in n.items():
                if any(v in self.sq and e >= 2 for v, e in m):
                    todo[m] = c
                else:
                    base[m] = c
            if todo:
                out = (base, dict(d))
                acc = (base, d)
                grp = {}
                for m, c in todo.items():
                    sub = tuple((v, e // 2) for v, e in m if v in self.sq and e >= 2)
                    rest = []
                    for v, e in m:
                        if v in self.sq and e >= 2:
                            if e % 2:
                                rest.append((v, 1))
                        else:
                            rest.append((v, e))
                    grp.setdefault(sub, {})
                    rm = tuple(rest)
                    g = grp[sub]
                    g[rm] = g.get(rm, 0) + c
                res = (base, d)
                for sub, p in grp.items():
                    x = (p, dict(d))
                    for v, e in sub:
                        for _ in range(e):
                            s = self.sq[v]
                            dd = dict(x[1])
                            for k, ee in s[1].items():
                                dd[k] = dd.get(k, 0) + ee
                            x = (pmul(x[0], s[0]), dd)
                    res = self.addr(res, x)
                n, d = res
                if not n:
                    return {}, {}
        # cancel monomial factors
        if d:
            for k in list(d):
                if len(k) == 1:
                    v = k[0][0][0][0]
                    e = min((dict(m).get(v, 0) for m in n), default=0)
                    e = min(e, d[k])
                    if e:
                        n2 = {}
                        for m, c in n.items():
                            mm = tuple((vv, ee - e if vv == v else ee) for vv, ee in m if not (vv == v and ee == e))
                            n2[mm] = c
                        n = n2
                        d = dict(d)
                        d[k] -= e
                        if not d[k]:
                            del d[k]
        return n, d

    def var(self, u):
        self.atoms[u.i] = u
        return {((u.i, 1),): Fraction(1)}, {}

    def nf(self, u):
        if not is_t(u):
            c = Fraction(u)
            return ({(): c} if c else {}), {}
        if u.i in self.memo:
            return self.memo[u.i]
        st = [u]
        while st:
            x = st[-1]
            if x.i in self.memo:
                st.pop()
                continue
            ks = [k for k in x.a if is_t(k) and k.s == 'R' and k.i not in self.memo] if x.op in (
                'radd', 'rmul', 'rdiv', 'sqrt', 'rfun') else []
            if ks:
                st.extend(ks)
                continue
            self.memo[x.i] = self.nf1(x)
            st.pop()
        return self.memo[u.i]

    def nf1(self, u):
        op = u.op
        if op == 'radd':
            return self.addr(self.nf(u.a[0]), self.nf(u.a[1]))
        if op == 'rmul':
            return self.mulr(self.nf(u.a[0]), self.nf(u.a[1]))
        if op == 'rdiv':
            n, d = self.nf(u.a[1])
            if not n:
                raise ZeroDivisionError
            c, f = self.factor(n)
            # 1/(n/d) = d/n
            inv = (self.mulfac({(): 1 / c}, d), f)
            return self.mulr(self.nf(u.a[0]), inv)
        if op == 'sqrt':
            n, d = self.nf(u.a[0])
            # canonical square-root atom per argument
            k = ('sqrt', pkey(n), tuple(sorted(d.items())))
            v = self.memo.get(k)
            if v is None:
                # perfect square of a constant
                if not d and len(n) == 1 and () in n:
                    s = t._is_square(n[()])
                    if s is not None:
                        return ({(): s} if s else {}), {}
                v = u.i
                self.memo[k] = v
                self.sq[v] = (n, d)
                self.atoms[v] = u
            return {((v, 1),): Fraction(1)}, {}
        if op == 'toreal':
            l = u.a[0]
            c, dd = t._lin(l)
            p = {(): Fraction(c)} if c else {}
            for a, k in dd.items():
                at = t.mk('toreal', (a,), 'R')
                self.atoms[at.i] = at
                p[((at.i, 1),)] = Fraction(k)
            return p, {}
        if op == 'rfun':
            # canonical atom per arguments
            k = ('rfun', u.a[0]) + tuple((pkey(n), tuple(sorted(d.items()))) for n, d in (self.nf(x) for x in u.a[1:]))
            v = self.memo.setdefault(k, u)
            return self.var(v)
        return self.var(u)


def nf_equal(a, b, nf=None):
    """True if a-b is identically zero as a rational function (square roots reduced)"""
    nf = nf or NF()
    try:
        d = nf.addr(nf.nf(a), nf.nf(t.rneg(b) if is_t(b) else -Fraction(b)))
        return not d[0]
    except (TooBig, ZeroDivisionError):
        return None


# ------------------------------------------------------------------ quantifier instantiation
def roots(a):
    out = []
    st = [a]
    while st:
        x = st.pop()
        if not is_t(x):
            continue
        if x.op == 'store':
            st.append(x.a[0])
        elif x.op == 'ite':
            st += [x.a[1], x.a[2]]
        elif x.op == 'var':
            out.append(x.i)
        else:
            out.append(x.i)
    return out


_occ = {}


def occurrences(f, qv):
    """index terms read in f: (family, index term); qv: bound variables (ids) allowed in the term"""
    out = _occ.get(f.i)
    if out is not None:
        return out
    out = _occ[f.i] = []
    for u in t.atoms(f, lambda u: u.op in ('sel', 'store', 'app', 'rfun')):
        if u.op in ('sel', 'store'):
            for r in roots(u.a[0]):
                out.append((('a', r), u.a[1]))
        else:
            for k, a in enumerate(u.a[1:]):
                if not is_t(a) or a.s == 'I':
                    out.append((('f', u.a[0], k), a))
    return out


_pat = {}


def patterns(q):
    """for each bound variable: families with the linear pattern coeff*v + rest"""
    r = _pat.get(q.i)
    if r is not None:
        return r
    vs = q.a[0]
    ids = set(v.i for v in vs)
    inner = set()
    for x in t.atoms(q.a[2], lambda u: u.op == 'forall'):
        inner.update(v.i for v in x.a[0])
    out = {v: [] for v in vs}
    for fam, ix in occurrences(q.a[2], ids):
        if not is_t(ix):
            continue
        vv = [w for w in t.vars_of(ix)]
        if any(w.i in inner for w in vv):
            continue
        c, d = t._lin(ix)
        for v in vs:
            if v in d:
                rest = t.isub(ix, t.imul(v, d[v]))
                bound_rest = is_t(rest) and any(w.i in ids for w in t.vars_of(rest))
                if is_t(rest) and any(w is v for w in t.vars_of(rest)):
                    continue
                out[v].append((fam, d[v], rest, bound_rest))
    _pat[q.i] = out
    return out


_instc = {}
_absc = {}
_skc = {}


def ground(fs, rounds=3, cap=1500):
    """Replace quantified subformulas by propositions with ground instances (implied by the
    original: unsatisfiability of the result implies unsatisfiability of fs)."""
    prop = {}       # forall id -> bvar
    quants = []     # (q, P)
    out = []
    done = set()
    pend = list(fs)
    terms = {}      # family -> {term}
    extra = {}      # other integer ground terms (skolems)
    n = 0

    def absorb(f):
        """abstract quantifiers in f (outermost first)"""
        if not is_t(f):
            return f
        qs = outer_quants(f) if info(f)[1][0] else None
        if qs:
            m = {}
            for q in qs:
                P = prop.get(q.i)
                if P is None:
                    P = t.bvar(f'Q!{q.i}')
                    prop[q.i] = P
                    quants.append((q, P))
                    # skolem for the negation
                    sk = _skc.get(q.i)
                    if sk is not None:
                        pend.append(sk[0])
                        for k in sk[1]:
                            extra[k.i] = k
                        m[q] = P
                        continue
                    sm = {}
                    rg = []
                    for v, (lo, hi) in zip(q.a[0], q.a[1]):
                        k = t.ivar(f'sk!{q.i}!{v.a[0]}')
                        lo = t.subst(lo, sm) if is_t(lo) else lo
                        hi = t.subst(hi, sm) if is_t(hi) else hi
                        sm[v] = k
                        rg += [t.ile(lo, k), t.ile(t.iadd(k, 1), hi)]
                        extra[k.i] = k
                    skf = t.bor(P, t.band(*rg, t.bnot(t.subst(q.a[2], sm))))
                    _skc[q.i] = (skf, list(sm.values()))
                    pend.append(skf)
                m[q] = P
            r = _absc.get(f.i)
            if r is None:
                r = _absc[f.i] = t.subst(f, m)
            f = r
        return f

    def scan(f):
        for fam, ix in occurrences(f, ()):
            terms.setdefault(fam, {})[ix.i if is_t(ix) else ('c', ix)] = ix

    def drain():
        while pend:
            f = absorb(pend.pop())
            if f is False:
                return False
            if f is True or f.i in done:
                continue
            done.add(f.i)
            out.append(f)
            scan(f)
        return True

    if not drain():
        return None
    inst = set()
    for rd in range(rounds):
        new = []
        for q, P in list(quants):
            pats = patterns(q)
            vs = q.a[0]
            # candidate substitutions, variable by variable
            subs = [{}]
            for v in vs:
                nxt = []
                for sm in subs:
                    seen = set()
                    for fam, k, rest, br in pats[v]:
                        r = t.subst(rest, sm) if (br and is_t(rest)) else rest
                        if br and is_t(r) and any(w in vs for w in t.vars_of(r)):
                            continue
                        for g in list(terms.get(fam, {}).values()):
                            x = t.isub(g, r)
                            if isinstance(x, int):
                                if x % k:
                                    continue
                                x //= k
                            elif k != 1:
                                c, d = t._lin(x)
                                if c % k or any(z % k for z in d.values()):
                                    continue
                                x = t.imk(c // k, {a: z // k for a, z in d.items()})
                            key = x.i if is_t(x) else ('c', x)
                            if key in seen:
                                continue
                            seen.add(key)
                            s2 = dict(sm)
                            s2[v] = x
                            nxt.append(s2)
                    if not pats[v]:
                        for g in extra.values():
                            s2 = dict(sm)
                            s2[v] = g
                            nxt.append(s2)
                subs = nxt
                if len(subs) > 400:
                    subs = subs[:400]
            for sm in subs:
                key = (q.i, tuple((sm[v].i if is_t(sm[v]) else ('c', sm[v])) for v in vs))
                if key in inst:
                    continue
                inst.add(key)
                n += 1
                if n > cap:
                    break
                b = _instc.get(key)
                if b is None:
                    rg = []
                    for v, (lo, hi) in zip(vs, q.a[1]):
                        lo = t.subst(lo, sm) if is_t(lo) else lo
                        hi = t.subst(hi, sm) if is_t(hi) else hi
                        rg += [t.ile(lo, sm[v]), t.ile(t.iadd(sm[v], 1), hi)]
                    b = t.implies(t.band(P, *rg), t.subst(q.a[2], sm))
                    _instc[key] = b
                if b is True:
                    continue
                new.append(b)
        if not new:
            break
        pend.extend(new)
        if not drain():
            return None
    return out


def outer_quants(f):
    out = []
    seen = set()
    st = [f]
    while st:
        u = st.pop()
        if u.i in seen:
            continue
        seen.add(u.i)
        if u.op == 'forall':
            out.append(u)
            continue
        st.extend(t.children(u))
    return out


# ------------------------------------------------------------------ prover
class Stats:
    def __init__(self):
        self.by = {}
        self.time = 0.0
        self.n = 0

    def add(self, how, dt):
        self.by[how] = self.by.get(how, 0) + 1
        self.time += dt
        self.n += 1


class Result:
    __slots__ = ('ok', 'how', 'model', 'why')

    def __init__(self, ok, how, model=None, why=None):
        self.ok = ok        # True proved, False refuted (model), None unknown
        self.how = how
        self.model = model
        self.why = why


class Prover:
    def __init__(self, rlimit=30_000_000, timeout_ms=60000, axioms=(), triggers=None):
        self.stats = Stats()
        self.cache = {}
        self.rlimit = rlimit
        self.timeout = timeout_ms
        self.axioms = list(axioms)
        self.nf = NF()
        self.logic_nra = False

    rmemo = {}

    def prove(self, hyps, goal, rlimit=None, need_model=False, timeout=None, cheap=False):
        """hyps |- goal"""
        if goal is True:
            return Result(True, 'syntactic')
        hyps = [h for h in hyps if h is not True]
        if any(h is False for h in hyps):
            return Result(True, 'syntactic')
        key = (frozenset(h.i for h in hyps), goal.i if is_t(goal) else goal)
        c = self.cache.get(key)
        if c is not None and (c.ok is not None) and not (need_model and c.ok is False and c.model is None):
            return c
        t0 = time.time()
        self.cheap = cheap
        try:
            r = self._prove(hyps, goal, rlimit or self.rlimit, timeout or self.timeout)
        finally:
            self.cheap = False
        self.stats.add(r.how, time.time() - t0)
        self.cache[key] = r
        return r

    def _split(self, hyps, goal):
        """skolemise and split the goal into atomic goals"""
        out = []
        st = [(hyps, goal)]
        while st:
            h, g = st.pop()
            if g is True:
                continue
            if is_t(g) and g.op == 'and':
                for x in g.a:
                    st.append((h, x))
                continue
            if is_t(g) and g.op == 'forall':
                vs, rs, body = g.a
                m = {}
                hh = list(h)
                rh = []
                for v, (lo, hi) in zip(vs, rs):
                    k = t.ivar(t.fresh_name('sk'))
                    m[v] = k
                    rh.append(t.ile(t.subst(lo, m) if is_t(lo) else lo, k))
                    rh.append(t.ile(t.iadd(k, 1), t.subst(hi, m) if is_t(hi) else hi))
                body = t.subst(body, m)
                cases = [(rh, body)]
                for v in vs:
                    cases = [y for x in cases for y in self._store_cases(x[0], x[1], m[v])]
                for r2, b2 in cases:
                    st.append((hh + r2, b2))
                continue
            if is_t(g) and g.op == 'not' and is_t(g.a[0]) and g.a[0].op == 'and':
                # not(and(x..)) = or(not x..): assume all but the last negated disjunct
                xs = list(g.a[0].a)
                # choose as goal the last one; others become hypotheses
                hh = list(h) + xs[:-1]
                st.append((hh, t.bnot(xs[-1])))
                continue
            out.append((h, g))
        return out

    def _store_cases(self, rh, g, k):
        """goals about a[k] after stores: one goal per written index (k replaced by it) and one for all other k"""
        if not is_t(g):
            return [(rh, g)]
        cand = []
        for u in t.atoms(g, lambda x: x.op == 'sel'):
            a = u.a[0]
            while is_t(a) and a.op == 'store':
                c, d = t._lin(t.isub(a.a[1], u.a[1]))
                m = d.get(k)
                if m and c % m == 0 and all(x % m == 0 for x in d.values()):
                    q = t.isub(k, t.imk(c // m, {x: y // m for x, y in d.items()}))
                    if q not in cand and not (is_t(q) and t.atoms(q, lambda x: x is k)):
                        cand.append(q)
                a = a.a[0]
        if not cand or len(cand) > 3:
            return [(rh, g)]
        out = []
        for q in cand:
            mm = {k: q}
            out.append(([t.subst(x, mm) if is_t(x) else x for x in rh], t.subst(g, mm)))
        # every other index: skip the stores
        rep = {}
        for u in t.atoms(g, lambda x: x.op == 'sel'):
            a = u.a[0]
            hit = False
            while is_t(a) and a.op == 'store':
                c, d = t._lin(t.isub(a.a[1], u.a[1]))
                m = d.get(k)
                if not (m and c % m == 0 and all(x % m == 0 for x in d.values())):
                    break
                q = t.isub(k, t.imk(c // m, {x: y // m for x, y in d.items()}))
                if q not in cand:
                    break
                a = a.a[0]
                hit = True
            if hit:
                rep[u] = t.sel(a, u.a[1], u.lo, u.hi)
        out.append((list(rh) + [t.bnot(t.ieq(k, q)) for q in cand], t.subst(g, rep) if rep else g))
        return out

    def _prove(self, hyps, goal, rlimit, timeout):
        parts = self._split(hyps, goal)
        how = 'syntactic'
        for h, g in parts:
            if g is True:
                continue
            r = self._prove1(h, g, rlimit, timeout)
            if r.ok is not True:
                return r
            if r.how != 'syntactic':
                how = r.how
        return Result(True, how)

    def _rounded(self, hyps, goal):
        """integers obtained from reals by truncation: replace those that hypotheses pin to other integer terms"""
        fp = [v for v in t.vars_of(goal) if v.s == 'I' and str(v.a[0]).startswith('fptoi!')]
        if not fp:
            return None
        # representatives of the integer terms, up to small offsets
        lin = [h for h in hyps if is_t(h) and not info(h)[1][0]]
        vs, its = {}, {}
        for h in lin + [goal]:
            for v in t.vars_of(h):
                if v.s == 'I':
                    vs[v.i] = v
            for u in t.atoms(h, lambda x: x.op in ('ite', 'iite') and x.s == 'I'):
                its[u.i] = u
        cls = lambda v: 0 if str(v.a[0]).startswith('in.') else 2 if v in fp else 1
        m, reps = {}, [0]
        for v in sorted(vs.values(), key=lambda v: (cls(v), v.i)) + sorted(its.values(), key=lambda v: v.i):
            for r in reps:
                for c in (0, 1, -1, -2):
                    w = t.iadd(r, c) if is_t(r) else r + c
                    if self._decided(lin, t.eq(v, w)):
                        m[v] = w
                        break
                if v in m:
                    break
            else:
                if v.op == 'var':
                    reps.append(v)
        if not m:
            return None
        return [t.subst(h, m) if is_t(h) else h for h in hyps], t.subst(goal, m)

    def _decided(self, lin, e):
        if not is_t(e):
            return bool(e)
        key = ('round', tuple(h.i for h in lin), e.i)
        ok = self.rmemo.get(key)
        if ok is None:
            r = self._mono(lin + [t.bnot(e)], 6_000_000, 10000)
            ok = self.rmemo[key] = bool(r is not None and getattr(r, 'ok', r) is True)
        return ok

    def _prove1(self, hyps, goal, rlimit, timeout):
        if is_t(goal) and goal.op == 'req':
            r = self._rounded(hyps, goal)
            if r:
                h2, g2 = r
                if g2 is True or any(h is False for h in h2):
                    return Result(True, 'syntactic')
                h2 = h2 + [a for a in self.axioms if is_t(a) and a.op == 'req']
                for _ in range(3):
                    lin = [h for h in h2 if is_t(h) and not info(h)[1][0]]
                    m = {}
                    for u in t.atoms(g2, lambda x: x.op == 'ite'):
                        if self._decided(lin, u.a[0]):
                            m[u] = u.a[1]
                        elif self._decided(lin, t.bnot(u.a[0])):
                            m[u] = u.a[2]
                    if not m:
                        break
                    g2 = t.subst(g2, m)
                    if not is_t(g2):
                        break
                if g2 is True:
                    return Result(True, 'polynomial-nf')
                r = self._prove2(h2, g2, 0, 0)
                if r is not None and r.ok is True:
                    return r
        return self._prove2(hyps, goal, rlimit, timeout)

    def _prove2(self, hyps, goal, rlimit, timeout):
        ids = set(x.i for h in hyps if is_t(h) for x in (h.a if h.op == 'and' else (h,)))
        if is_t(goal) and goal.op == 'req' and goal.i not in ids:
            m = self._eqsubst(hyps)
            m.update(self._qrewrite(hyps, goal))
            if m:
                g2 = t.subst(goal, m)
                if g2 is True:
                    return Result(True, 'polynomial-nf')
                if is_t(g2) and g2.op == 'req' and g2 is not goal:
                    h2 = []
                    for h in hyps:
                        if is_t(h) and not info(h)[1][0]:
                            x = t.subst(h, m)
                            if x is not h and x is not True:
                                h2.append(x)
                    if any(x is False for x in h2):
                        return Result(True, 'syntactic')
                    if not t.atoms(g2, lambda u: u.op == 'ite'):
                        if nf_equal(g2.a[0], g2.a[1], self.nf):
                            return Result(True, 'polynomial-nf')
                    elif self._cases(list(hyps) + h2, g2, 0):
                        return Result(True, 'polynomial-nf+cases')
        if is_t(goal):
            if goal.i in ids:
                return Result(True, 'syntactic')
            if goal.op == 'req':
                if not t.atoms(goal, lambda u: u.op == 'ite'):
                    e = nf_equal(goal.a[0], goal.a[1], self.nf)
                    if e:
                        return Result(True, 'polynomial-nf')
                else:
                    r = self._cases(hyps, goal, 0)
                    if r:
                        return Result(True, 'polynomial-nf+cases')
        return self._smt(hyps, goal, rlimit, timeout) if rlimit != 0 else None

    def _qrewrite(self, hyps, goal):
        """instances a[i] = e of quantified equations that match reads in the goal"""
        m = {}
        qs = [h for h in hyps if is_t(h) and h.op == 'forall' and len(h.a[0]) == 1]
        if not qs:
            return m
        eqs = []
        for h in qs:
            (v,), ((lo, hi),), body = h.a
            for e in (body.a if is_t(body) and body.op == 'and' else (body,)):
                if is_t(e) and e.op == 'req' and is_t(e.a[0]) and is_t(e.a[1]):
                    for l, r in ((e.a[0], e.a[1]), (e.a[1], e.a[0])):
                        if l.op == 'sel' and l.a[0].op == 'var' and not t.atoms(r, lambda u: u is l.a[0]):
                            eqs.append((v, lo, hi, l, r))
        if not eqs:
            return m
        qf = None
        for u in t.atoms(goal, lambda x: x.op == 'sel' and x.a[0].op == 'var'):
            if u.a[0].a[0][:1] != 'L':
                continue
            for v, lo, hi, l, r in eqs:
                if l.a[0] is not u.a[0] or u in m:
                    continue
                c, d = t._lin(t.isub(l.a[1], u.a[1]))
                k = d.get(v)
                if not k or c % k or any(x % k for x in d.values()):
                    continue
                q = t.isub(v, t.imk(c // k, {x: y // k for x, y in d.items()}))
                mm = {v: q}
                s_ = lambda x: t.subst(x, mm) if is_t(x) else x
                rg = t.band(t.ile(s_(lo), q), t.ile(t.iadd(q, 1), s_(hi)))
                if qf is None:
                    qf = [h for h in hyps if is_t(h) and not info(h)[1][0]]
                if rg is True:
                    ok = True
                elif rg is False:
                    ok = False
                else:
                    sv, _ = self._solver(qf + [t.bnot(rg)], 3_000_000, 2000, axioms=False)
                    ok = sv.check() == z3.unsat
                if ok:
                    m[u] = s_(r)
        return m

    def _eqsubst(self, hyps):
        """equations among the hypotheses as a substitution"""
        m = {}
        for h in hyps:
            if not is_t(h):
                continue
            for e in (h.a if h.op == 'and' else (h,)):
                if e.op != 'req':
                    continue
                l, r = (t.subst(x, m) if is_t(x) else x for x in e.a)
                if not is_t(l):
                    l, r = r, l
                if not is_t(l):
                    continue
                if not is_t(r) and l.op != 'radd':
                    d = {l: r}
                else:
                    lin = {}
                    con = [Fraction(0)]

                    def walk(x, k):
                        if not is_t(x):
                            con[0] += k * x
                        elif x.op == 'radd':
                            for y in x.a:
                                walk(y, k)
                        elif x.op == 'rmul' and len(x.a) == 2 and not is_t(x.a[0]):
                            walk(x.a[1], k * x.a[0])
                        elif x.op == 'rmul' and len(x.a) == 2 and not is_t(x.a[1]):
                            walk(x.a[0], k * x.a[1])
                        else:
                            lin[x] = lin.get(x, 0) + k
                    walk(l, Fraction(1))
                    walk(r, Fraction(-1))
                    c = [x for x, k in lin.items() if k and x.op in ('var', 'sel') and not any(
                        y is not x and t.atoms(y, lambda u: u is x) for y in lin)]
                    if not c:
                        continue
                    x = c[0]
                    v = con[0]
                    for y, k in lin.items():
                        if y is not x and k:
                            v = t.radd(v, t.rmul(k, y))
                    d = {x: t.rmul(Fraction(-1) / lin[x], v)}
                m = {a: (t.subst(b, d) if is_t(b) else b) for a, b in m.items()}
                m.update(d)
        return m

    # -------- case split over ite conditions inside an equality
    def _cases(self, hyps, goal, depth, cs=(), budget=None):
        """hyps: hypotheses; cs: conditions assumed on the way.  Feasibility is asked only where a leaf fails."""
        if budget is None:
            budget = [600, 40]
        facts = {}
        for h in list(hyps) + list(cs):
            if is_t(h):
                for x in (h.a if h.op == 'and' else (h,)):
                    if x.op == 'forall':
                        continue
                    facts[x] = True
                    n = t.bnot(x)
                    if is_t(n):
                        facts[n] = False
        for _ in range(4):
            conds = t.atoms(goal, lambda u: u.op == 'ite')
            if not conds:
                break
            g2 = t.subst(goal, facts)
            if g2 is goal:
                break
            goal = g2
            if not is_t(goal):
                conds = ()
                break
        if goal is True:
            return True
        if not is_t(goal) or not conds:
            if is_t(goal) and goal.op == 'req' and nf_equal(goal.a[0], goal.a[1], self.nf):
                return True
            budget[1] -= 1
            if budget[1] < 0:
                return False
            if self._infeasible(list(hyps) + list(cs)):
                return True
            if is_t(goal) and len(hyps) + len(cs) < 60:
                s, lo = self._solver([x for x in list(hyps) + list(cs) + [t.bnot(goal)] if not is_t(x) or not info(x)[1][0]], 4_000_000, 2000, axioms=False)
                return s.check() == z3.unsat
            return False
        if depth > 14:
            return False
        budget[0] -= 1
        if budget[0] < 0:
            return False
        pick = None
        for u in conds:
            c = u.a[0]
            if not t.atoms(c, lambda v: v.op == 'ite'):
                pick = c
                break
        if pick is None:
            return False
        while pick.op in ('and', 'not'):
            pick = pick.a[0]
        n = t.bnot(pick)
        for val in (True, False):
            h = pick if val else n
            mm = {pick: val}
            if is_t(n):
                mm[n] = not val
            g = t.subst(goal, mm)
            if g is True:
                continue
            if not self._cases(hyps, g, depth + 1, tuple(cs) + (h,), budget):
                return False
        return True

    def _cases_le(self, hyps, goal, depth=0):
        """inequality with case distinctions below products: split, then linear arithmetic over monomials"""
        if goal is True:
            return True
        if not is_t(goal):
            return self._infeasible(hyps)
        pick = None
        for u in t.atoms(goal, lambda u: u.op == 'ite'):
            if not t.atoms(u.a[0], lambda v: v.op == 'ite'):
                pick = u.a[0]
                break
        if pick is None:
            return self._mono([h for h in hyps if is_t(h)] + [t.bnot(goal)], 20_000_000, 3000)
        if depth > 3:
            return False
        while pick.op in ('and', 'not'):
            pick = pick.a[0]
        n = t.bnot(pick)
        for val in (True, False):
            mm = {pick: val}
            if is_t(n):
                mm[n] = not val
            h = [t.subst(x, mm) for x in hyps] + [pick if val else n]
            if any(x is False for x in h):
                continue
            if not self._cases_le([x for x in h if x is not True], t.subst(goal, mm), depth + 1):
                return False
        return True

    def _infeasible(self, hyps):
        for h in hyps:
            if h is False:
                return True
            n = t.bnot(h)
            if n in hyps:
                return True
        qf = [h for h in hyps if not is_t(h) or not info(h)[1][0]]
        s, lo = self._solver(qf, 2_000_000, 1500, axioms=False)
        if s.check() == z3.unsat:
            return True
        if len(qf) == len(hyps) and not self.axioms:
            return False
        s, lo = self._solver(hyps, 2_000_000, 1500)
        return s.check() == z3.unsat

    def _solver(self, fs, rlimit, timeout, axioms=True, lo=None):
        lo = lo or LOW
        allf = list(fs) + (self.axioms if axioms else [])
        atoms = {}
        flags = [False] * 4
        for f in allf:
            if is_t(f):
                at, fl = info(f)
                for u in at:
                    atoms[u.i] = u
                flags = [a or b for a, b in zip(flags, fl)]
        quant, arr, ints, rf = flags
        if not quant and not arr and not ints and not rf and (atoms or any(nonlinear(f) for f in allf if is_t(f))):
            s = z3.SolverFor('QF_NRA')
        else:
            s = z3.Solver()
        s.set('timeout', int(timeout))
        try:
            s.set('rlimit', int(rlimit))
        except z3.Z3Exception:
            pass
        zs = [lo(f) for f in allf]
        for u in atoms.values():
            if lo is LOWL and u.op == 'sqrt':
                zs.append(lo(u) >= 0)
            else:
                zs += side(u)
        s.add(zs)
        return s, lo

    def _smt(self, hyps, goal, rlimit, timeout):
        fs = list(hyps) + [t.bnot(goal)]
        if any(f is False for f in fs):
            return Result(True, 'syntactic')
        fs = [f for f in fs if f is not True]
        allf = fs + self.axioms
        if any(t.atoms(f, lambda u: u.op == 'forall') for f in allf):
            if not is_t(goal) or not info(goal)[1][0]:
                qf = [f for f in fs if not info(f)[1][0]]
                if len(qf) < len(allf):
                    s, lo = self._solver(qf, min(rlimit, 3_000_000), 1500, axioms=False)
                    if s.check() == z3.unsat:
                        return Result(True, 'z3')
            g = ground(allf, 1, 100) if self.cheap else ground(allf)
            if g is None:
                return Result(True, 'instantiation')
            if any(nonlinear(f) for f in g if is_t(f)):
                s, lo = self._solver(g, rlimit, min(timeout, 4000), axioms=False, lo=LOWL)
                if s.check() == z3.unsat:
                    return Result(True, 'z3 (linearised)')
            s, lo = self._solver(g, rlimit, timeout, axioms=False)
            c = s.check()
            if c == z3.unsat:
                return Result(True, 'z3')
            if self.cheap or self.quick_mode or c == z3.sat and not self.full:
                return Result(False if c == z3.sat else None, 'z3', (s.model(), lo) if c == z3.sat else None, s.reason_unknown())
            first = Result(False, 'z3', (s.model(), lo)) if c == z3.sat else None
            r = self._smt_full(hyps, goal, rlimit, min(timeout, 15000))
            if r.ok is None and first is not None:
                return first
            return r
        return self._smt_full(hyps, goal, rlimit, timeout)

    def _mono(self, fs, rlimit, timeout):
        """linear arithmetic over monomials (MonoLower)"""
        lo = MonoLower()
        try:
            s = z3.Solver()
            s.set('timeout', int(timeout))
            s.set('rlimit', int(rlimit))
            zs = [lo(f) for f in fs]
            for f in fs:
                if is_t(f):
                    for u in info(f)[0]:
                        if u.op != 'sqrt':
                            z = lo(u)
                            if u.lo is not None:
                                zs.append(z >= u.lo)
                            if u.hi is not None:
                                zs.append(z <= u.hi)
            s.add(zs + lo.finish())
            return s.check() == z3.unsat
        except (TooBig, ZeroDivisionError, z3.Z3Exception):
            return False

    quick_mode = False
    cheap = False
    full = True

    def _connected(self, hyps, goal):
        """the hypotheses that share variables with the goal (transitively)"""
        left = []
        for h in hyps:
            if is_t(h):
                vs = _hv.get(h.i)
                if vs is None:
                    vs = _hv[h.i] = frozenset(v.i for v in t.vars_of(h))
                left.append((h, vs))
        vs = set(v.i for v in t.vars_of(goal)) if is_t(goal) else set()
        keep = set()
        while True:
            new = [(h, x) for h, x in left if h.i not in keep and (x & vs or not x)]
            if not new:
                break
            for h, x in new:
                keep.add(h.i)
                vs |= x
        return [h for h in hyps if not is_t(h) or h.i in keep]

    def _smt_full(self, hyps, goal, rlimit, timeout):
        if is_t(goal) and len(hyps) > 1:
            near = self._connected(hyps, goal)
            if len(near) < len(hyps):
                r = self._smt_full1(near, goal, rlimit, min(timeout, 10000), True)
                if r.ok:
                    return r
        return self._smt_full1(hyps, goal, rlimit, timeout)

    def _smt_full1(self, hyps, goal, rlimit, timeout, once=False):
        hyps = self.prune(hyps, goal)
        fs = list(hyps) + [t.bnot(goal)]
        if any(f is False for f in fs):
            return Result(True, 'syntactic')
        fs = [f for f in fs if f is not True]
        nl = not self.cheap and any(nonlinear(f) or info(f)[0] and any(u.op == 'sqrt' for u in info(f)[0]) for f in fs if is_t(f)) and not any(
            info(f)[1][0] for f in fs if is_t(f))
        if nl:
            s, lo = self._solver(fs, rlimit, min(timeout, 1500))
            c = s.check()
            if c == z3.unsat:
                return Result(True, 'z3')
            if c == z3.unknown:
                if self._mono(fs, rlimit, min(timeout, 4000)):
                    return Result(True, 'z3 (monomials)')
                if is_t(goal) and goal.op in ('rle', 'rlt') and 0 < len(t.atoms(goal, lambda u: u.op == 'ite')) < 30 and self._cases_le(hyps, goal):
                    return Result(True, 'z3 (monomials)+cases')
                s, lo = self._solver(fs, rlimit, min(timeout, 4000), lo=LOWL)
                if s.check() == z3.unsat:
                    return Result(True, 'z3 (linearised)')
        s, lo = self._solver(fs, rlimit, timeout)
        c = s.check()
        if c == z3.unsat:
            return Result(True, 'z3')
        if c == z3.sat:
            m = s.model()
            return Result(False, 'z3', (m, lo))
        if once:
            return Result(None, 'z3', None, s.reason_unknown())
        # second try: different seed and arithmetic solver
        for opts in ({'random_seed': 7, 'arith.solver': 2}, {'mbqi': False}):
            s2, lo2 = self._solver(fs, rlimit, timeout)
            try:
                for k, v in opts.items():
                    s2.set(k, v)
            except z3.Z3Exception:
                continue
            c = s2.check()
            if c == z3.unsat:
                return Result(True, 'z3')
            if c == z3.sat:
                return Result(False, 'z3', (s2.model(), lo2))
        r = self._cvc5(fs, timeout)
        if r is not None:
            return Result(True, 'cvc5') if r == 'unsat' else Result(None, 'cvc5', None, 'sat without model')
        return Result(None, 'z3', None, s.reason_unknown())

    def prune(self, hyps, goal):
        return hyps

    def _cvc5(self, fs, timeout):
        import subprocess, tempfile, os, shutil
        exe = shutil.which('cvc5')
        if not exe:
            return None
        s, lo = self._solver(fs, 1, 1)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        fd, p = tempfile.mkstemp(suffix='.smt2')
        try:
            with os.fdopen(fd, 'w') as f:
                f.write(txt)
            o = subprocess.run([exe, '--tlimit=%d' % min(timeout, 20000), p], capture_output=True, text=True, timeout=60)
            w = o.stdout.strip().split('\n')[0]
            return w if w == 'unsat' else None
        except Exception:
            return None
        finally:
            os.unlink(p)

    def feasible(self, hyps, rlimit=5_000_000, timeout=5000):
        """False only if proved infeasible"""
        if any(h is False for h in hyps):
            return False
        s, lo = self._solver([h for h in hyps if h is not True], rlimit, timeout)
        return s.check() != z3.unsat

    def model(self, hyps, rlimit=20_000_000, timeout=20000):
        s, lo = self._solver([h for h in hyps if h is not True], rlimit, timeout)
        if s.check() == z3.sat:
            return s.model(), lo
        return None


def z3num(v):
    """z3 numeral -> Fraction/int/bool (algebraic numbers approximated)"""
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None
