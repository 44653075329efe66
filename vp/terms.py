"""Hash-consed terms over mathematical integers, reals, booleans and arrays.

Constants are plain Python values (int, Fraction, bool); everything else is a T.
Integer terms are kept in a canonical polynomial form, so that equal index expressions
are syntactically equal."""
from fractions import Fraction
from functools import reduce
from math import gcd

_tab = {}
_cnt = [0]


class T:
    __slots__ = ('op', 'a', 's', 'i', 'lo', 'hi', 'x')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.i

    def __eq__(self, o):
        return self is o

    # arithmetic sugar for contracts
    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return sub(self, o)
    def __rsub__(self, o): return sub(o, self)
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return rdiv(self, o)
    def __rtruediv__(self, o): return rdiv(o, self)
    def __neg__(self): return sub(0, self)
    def __lt__(self, o): return lt(self, o)
    def __le__(self, o): return le(self, o)
    def __gt__(self, o): return lt(o, self)
    def __ge__(self, o): return le(o, self)

    def __bool__(self):
        raise TypeError('symbolic term used as a Python truth value: ' + show(self))


def mk(op, args, s, lo=None, hi=None, x=None):
    k = (op, args, s)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = args
        t.s = s
        t.i = _cnt[0]
        _cnt[0] += 1
        t.lo = lo
        t.hi = hi
        t.x = x
        _tab[k] = t
    return t


def reset():
    _tab.clear()


def is_t(v):
    return isinstance(v, T)


def sort(v):
    if isinstance(v, T):
        return v.s
    if isinstance(v, bool):
        return 'B'
    if isinstance(v, int):
        return 'I'
    return 'R'


_fresh = [0]


def fresh_name(p):
    _fresh[0] += 1
    return f'{p}!{_fresh[0]}'


def ivar(name, lo=None, hi=None):
    t = mk('var', (name,), 'I', lo, hi)
    return t


def rvar(name):
    return mk('var', (name,), 'R')


def bvar(name):
    return mk('var', (name,), 'B')


def avar(name, el):
    """array variable Int -> el ('I' or 'R' or 'B')"""
    return mk('var', (name,), 'A' + el)


# ---------------------------------------------------------------- integers
def _lin(v):
    """(const, {atom: coeff})"""
    if isinstance(v, int):
        return int(v), {}
    if v.op == 'lin':
        return v.a[0], dict(v.a[1])
    return 0, {v: 1}


def imk(c, d):
    d = {a: k for a, k in d.items() if k}
    if not d:
        return c
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return mk('lin', (c, tuple(sorted(d.items(), key=lambda p: p[0].i))), 'I')


def iadd(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    c, d = _lin(a)
    c2, d2 = _lin(b)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + v
    return imk(c + c2, d)


def ineg(a):
    if isinstance(a, int):
        return -a
    c, d = _lin(a)
    return imk(-c, {k: -v for k, v in d.items()})


def isub(a, b):
    return iadd(a, ineg(b))


def _mono(a):
    return a.a if a.op == 'imul' else (a,)


def imul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    c1, d1 = _lin(a)
    c2, d2 = _lin(b)
    r = {}
    for k, v in d1.items():
        if c2:
            r[k] = r.get(k, 0) + v * c2
    for k, v in d2.items():
        if c1:
            r[k] = r.get(k, 0) + v * c1
    for k, v in d1.items():
        for k2, v2 in d2.items():
            m = tuple(sorted(_mono(k) + _mono(k2), key=lambda p: p.i))
            lo = hi = None
            t = mk('imul', m, 'I')
            if t.lo is None:
                l, h = 1, 1
                for f in m:
                    fl, fh = f.lo, f.hi
                    if fl is None or fl < 0 or l is None:
                        l = None
                        h = None
                        break
                    l = l * fl
                    h = None if (fh is None or h is None) else h * fh
                t.lo, t.hi = l, h
            r[t] = r.get(t, 0) + v * v2
    return imk(c1 * c2, r)


def rng(t, bounds=None):
    """interval of an integer term from the ranges of its atoms"""
    if isinstance(t, int):
        return t, t
    if t.op != 'lin':
        if bounds is not None:
            b = bounds.get(t)
            if b is not None:
                return b
            if t.op == 'ite':
                l1, h1 = rng(t.a[1], bounds)
                l2, h2 = rng(t.a[2], bounds)
                return (None if l1 is None or l2 is None else min(l1, l2),
                        None if h1 is None or h2 is None else max(h1, h2))
        return t.lo, t.hi
    c, d = t.a
    lo = hi = c
    for a, k in d:
        l, h = rng(a, bounds) if bounds is not None else (a.lo, a.hi)
        if k < 0:
            l, h = h, l
        lo = None if (lo is None or l is None) else lo + k * l
        hi = None if (hi is None or h is None) else hi + k * h
    return lo, hi


def idiv(a, b):
    """floor division, b > 0"""
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    if isinstance(b, int):
        if b == 1:
            return a
        c, d = _lin(a)
        if all(v % b == 0 for v in d.values()):
            return imk(c // b, {k: v // b for k, v in d.items()})
        # split off the divisible part
        dd = {k: v for k, v in d.items() if v % b == 0}
        rest = imk(c, {k: v for k, v in d.items() if v % b})
        l, h = rng(rest)
        q = imk(0, {k: v // b for k, v in dd.items()})
        if l is not None and h is not None and l // b == h // b:
            return iadd(q, l // b)
        t = mk('idiv', (rest, b), 'I')
        if l is not None:
            t.lo = l // b
        if h is not None:
            t.hi = h // b
        return iadd(q, t)
    if a is b:
        return 1
    t = mk('idiv', (a, b), 'I')
    t.lo = 0
    t.hi = rng(a)[1]
    return t


def imod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    if isinstance(b, int):
        c, d = _lin(a)
        d = {k: v % b for k, v in d.items() if v % b}
        r = imk(c % b, d)
        if isinstance(r, int):
            return r % b
        l, h = rng(a)
        if l is not None and h is not None and l // b == h // b:
            return isub(a, (l // b) * b)
        l, h = rng(r)
        if l is not None and h is not None and l // b == h // b:
            return isub(r, (l // b) * b)
        t = mk('imod', (r, b), 'I')
        t.lo, t.hi = 0, b - 1
        return t
    t = mk('imod', (a, b), 'I')
    t.lo = 0
    h = rng(b)[1]
    t.hi = None if h is None else h - 1
    return t


# ---------------------------------------------------------------- reals
def R(x):
    if isinstance(x, T):
        if x.s == 'I':
            return toreal(x)
        return x
    if isinstance(x, Fraction):
        return x
    return Fraction(x)


def toreal(i):
    if isinstance(i, int):
        return Fraction(i)
    if i.op == 'ite':
        return rite(i.a[0], toreal(i.a[1]), toreal(i.a[2]))
    return mk('toreal', (i,), 'R')


ZERO = Fraction(0)
ONE = Fraction(1)


def radd(a, b):
    if not is_t(a) and not is_t(b):
        return a + b
    if not is_t(a):
        if a == 0:
            return b
        a, b = b, a
    if not is_t(b):
        if b == 0:
            return a
        if a.op == 'radd' and not is_t(a.a[1]):
            return radd(a.a[0], a.a[1] + b)
        return mk('radd', (a, b), 'R')
    if a.i > b.i:
        a, b = b, a
    return mk('radd', (a, b), 'R')


def rneg(a):
    return rmul(Fraction(-1), a)


def rsub(a, b):
    if a is b:
        return ZERO
    return radd(a, rneg(b))


def rmul(a, b):
    if not is_t(a) and not is_t(b):
        return a * b
    if is_t(a) and not is_t(b):
        a, b = b, a
    if not is_t(a):
        if a == 0:
            return ZERO
        if a == 1:
            return b
        if b.op == 'rmul' and not is_t(b.a[0]):
            return rmul(a * b.a[0], b.a[1])
        return mk('rmul', (a, b), 'R')
    if a.op == 'rmul' and not is_t(a.a[0]):
        return rmul(a.a[0], rmul(a.a[1], b))
    if b.op == 'rmul' and not is_t(b.a[0]):
        return rmul(b.a[0], rmul(a, b.a[1]))
    if a.i > b.i:
        a, b = b, a
    return mk('rmul', (a, b), 'R')


def rdiv(a, b):
    a, b = R(a), R(b)
    if not is_t(b):
        if b == 0:
            raise ZeroDivisionError
        return rmul(ONE / b, a)
    if not is_t(a) and a == 0:
        return ZERO
    return mk('rdiv', (a, b), 'R')


def _is_square(fr):
    from math import isqrt
    n, d = fr.numerator, fr.denominator
    if n < 0:
        return None
    a, b = isqrt(n), isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


def rsqrt(a):
    if not is_t(a):
        s = _is_square(a)
        if s is not None:
            return s
    return mk('sqrt', (a,), 'R')


def rabs(a):
    if not is_t(a):
        return abs(a)
    if a.op == 'sqrt':
        return a
    return rite(rlt(a, ZERO), rneg(a), a)


def rfun(name, *args):
    return mk('rfun', (name,) + tuple(args), 'R')


def rexp(x):
    """exp; sums become products, exp(log(y)) = y (y > 0 where the logarithm is defined)"""
    if not is_t(x):
        if x == 0:
            return Fraction(1)
    elif x.op == 'radd':
        return rmul(rexp(x.a[0]), rexp(x.a[1]))
    elif x.op == 'rfun' and x.a[0] == 'log':
        return x.a[1]
    return rfun('exp', x)


def rlog(x):
    if not is_t(x):
        if x == 1:
            return Fraction(0)
    elif x.op == 'rfun' and x.a[0] == 'exp':
        return x.a[1]
    return rfun('log', x)


def rpow(x, y):
    """x > 0"""
    return rexp(rmul(y, rlog(x)))


# ---------------------------------------------------------------- generic sugar
def add(a, b):
    if sort(a) == 'I' and sort(b) == 'I':
        return iadd(a, b)
    return radd(R(a), R(b))


def sub(a, b):
    if sort(a) == 'I' and sort(b) == 'I':
        return isub(a, b)
    return rsub(R(a), R(b))


def mul(a, b):
    if sort(a) == 'I' and sort(b) == 'I':
        return imul(a, b)
    return rmul(R(a), R(b))


def lt(a, b):
    if sort(a) == 'I' and sort(b) == 'I':
        return ile(iadd(a, 1), b)
    return rlt(R(a), R(b))


def le(a, b):
    if sort(a) == 'I' and sort(b) == 'I':
        return ile(a, b)
    return rle(R(a), R(b))


def eq(a, b):
    sa, sb = sort(a), sort(b)
    if sa == 'B' or sb == 'B':
        return bor(band(a, b), band(bnot(a), bnot(b)))
    if sa[0] == 'A':
        return a is b if a is b else mk('aeq', (a, b), 'B')
    if sa == 'I' and sb == 'I':
        return ieq(a, b)
    return req(R(a), R(b))


def ne(a, b):
    return bnot(eq(a, b))


def total(xs):
    return reduce(add, xs, 0)


# ---------------------------------------------------------------- booleans
def band(*xs):
    r = []
    seen = set()
    st = list(xs)[::-1]
    while st:
        x = st.pop()
        if x is True:
            continue
        if x is False:
            return False
        if x.op == 'and':
            st.extend(x.a[::-1])
            continue
        if x.i not in seen:
            seen.add(x.i)
            r.append(x)
    if not r:
        return True
    for x in r:
        n = bnot(x)
        if is_t(n) and n.i in seen:
            return False
    if len(r) == 1:
        return r[0]
    return mk('and', tuple(r), 'B')


def bor(*xs):
    r = bnot(band(*[bnot(x) for x in xs]))
    return r


def bnot(x):
    if isinstance(x, bool):
        return not x
    if x.op == 'not':
        return x.a[0]
    if x.op == 'ile0':
        return ile(1, x.a[0])
    if x.op == 'rlt':
        return mk('rle', (x.a[1], x.a[0]), 'B')
    if x.op == 'rle':
        return mk('rlt', (x.a[1], x.a[0]), 'B')
    return mk('not', (x,), 'B')


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    return band(implies(a, b), implies(b, a))


def ile(a, b):
    l = isub(a, b)
    if isinstance(l, int):
        return l <= 0
    lo, hi = rng(l)
    if hi is not None and hi <= 0:
        return True
    if lo is not None and lo > 0:
        return False
    c, d = _lin(l)
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if g > 1:
        # sum <= -c  <=>  sum/g <= floor(-c/g)
        l = imk(-((-c) // g), {k: v // g for k, v in d.items()})
    if l.op == 'ite' and isinstance(l.a[1], int) and isinstance(l.a[2], int):
        return bite(l.a[0], l.a[1] <= 0, l.a[2] <= 0)
    return mk('ile0', (l,), 'B')


def ieq(a, b):
    l = isub(a, b)
    if isinstance(l, int):
        return l == 0
    lo, hi = rng(l)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return False
    c, d = _lin(l)
    g = 0
    for v in d.values():
        g = gcd(g, abs(v))
    if c % g:
        return False
    it = sorted(d.items(), key=lambda p: p[0].i)
    s = g if it[0][1] > 0 else -g
    l = imk(c // s, {k: v // s for k, v in d.items()})
    c, d = _lin(l)
    if len(d) == 1:
        (at, k), = d.items()
        if at.op == 'ite':
            t1, t2 = at.a[1], at.a[2]
            if isinstance(t1, int) or isinstance(t2, int):
                e1 = ieq(iadd(imul(t1, k), c), 0)
                e2 = ieq(iadd(imul(t2, k), c), 0)
                return bite(at.a[0], e1, e2)
    return mk('ieq0', (l,), 'B')


def rlt(a, b):
    if not is_t(a) and not is_t(b):
        return a < b
    if a is b:
        return False
    return mk('rlt', (a, b), 'B')


def rle(a, b):
    if not is_t(a) and not is_t(b):
        return a <= b
    if a is b:
        return True
    return mk('rle', (a, b), 'B')


def req(a, b):
    if not is_t(a) and not is_t(b):
        return a == b
    if a is b:
        return True
    if is_t(a) and is_t(b):
        if a.i > b.i:
            a, b = b, a
    elif not is_t(a):
        a, b = b, a
    return mk('req', (a, b), 'B')


def bite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return bor(band(c, a), band(bnot(c), b))


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    sa, sb = sort(a), sort(b)
    if sa == 'B':
        return bite(c, a, b)
    if sa == 'I' and sb == 'I':
        return iite(c, a, b)
    if sa[0] == 'A':
        return mk('ite', (c, a, b), sa)
    return rite(c, R(a), R(b))


def iite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    if a is b:
        return a
    if c.op == 'not':
        c, a, b = c.a[0], b, a
    if is_t(a) and a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if is_t(b) and b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if is_t(a) and is_t(b) and a.i == b.i:
        return a
    t = mk('ite', (c, a, b), 'I')
    if t.lo is None and t.hi is None:
        l1, h1 = rng(a)
        l2, h2 = rng(b)
        t.lo = None if l1 is None or l2 is None else min(l1, l2)
        t.hi = None if h1 is None or h2 is None else max(h1, h2)
    return t


def rite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b or (not is_t(a) and not is_t(b) and a == b):
        return a
    if c.op == 'not':
        c, a, b = c.a[0], b, a
    if is_t(a) and a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if is_t(b) and b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    return mk('ite', (c, a, b), 'R')


def rmin(a, b):
    a, b = R(a), R(b)
    return rite(rlt(b, a), b, a)


def rmax(a, b):
    a, b = R(a), R(b)
    return rite(rlt(a, b), b, a)


def imin(a, b):
    return iite(ile(a, b), a, b)


def imax(a, b):
    return iite(ile(a, b), b, a)


# ---------------------------------------------------------------- arrays, functions, quantifiers
def sel(arr, idx, lo=None, hi=None):
    if isinstance(arr, Arr):
        return arr[idx]
    a = arr
    while is_t(a) and a.op == 'store':
        e = ieq(a.a[1], idx)
        if e is True:
            return a.a[2]
        if e is False:
            a = a.a[0]
            continue
        break
    if a.op == 'karr':
        return a.a[0]
    if a.op == 'ite':
        return ite(a.a[0], sel(a.a[1], idx, lo, hi), sel(a.a[2], idx, lo, hi))
    s = a.s[1:]
    t = mk('sel', (a, idx), s)
    if s == 'I' and t.lo is None and t.hi is None:
        t.lo, t.hi = lo, hi
    return t


def store(arr, idx, v):
    if arr.op == 'store' and ieq(arr.a[1], idx) is True:
        arr = arr.a[0]
    return mk('store', (arr, idx, v), arr.s)


def karr(v, s):
    return mk('karr', (v,), 'A' + s)


class Arr:
    """array view used by contracts: a term plus element range"""

    def __init__(self, term, n=None, lo=None, hi=None, name=None):
        self.term = term
        self.n = n
        self.lo = lo
        self.hi = hi
        self.name = name

    def __getitem__(self, i):
        return sel(self.term, i, self.lo, self.hi)


def app(name, args, s='I', lo=None, hi=None):
    """uninterpreted (ghost) function"""
    return mk('app', (name,) + tuple(args), s, lo, hi)


_qv = [0]


def forall(ranges, f):
    """forall([(lo,hi),...], lambda k,...: body): k ranges over lo <= k < hi"""
    # small constant ranges are expanded
    for k, (lo, hi) in enumerate(ranges):
        if isinstance(lo, int) and isinstance(hi, int) and hi - lo <= 64:
            rest = list(ranges[:k]) + list(ranges[k + 1:])
            if not rest:
                return band(*[f(x) for x in range(lo, hi)])
            return forall(rest, lambda *a: band(*[f(*a[:k], x, *a[k:]) for x in range(lo, hi)]))
    vs = []
    for (lo, hi) in ranges:
        _qv[0] += 1
        v = mk('var', (f'q!{_qv[0]}',), 'I')
        vs.append(v)
    body = f(*vs)
    if isinstance(body, bool):
        if body:
            return True
    if is_t(body) and body.op == 'forall':
        return mk('forall', (tuple(vs) + body.a[0], tuple((lo, hi) for lo, hi in ranges) + body.a[1], body.a[2]), 'B')
    return mk('forall', (tuple(vs), tuple((lo, hi) for lo, hi in ranges), body), 'B')


def exists(ranges, f):
    return bnot(forall(ranges, lambda *a: bnot(f(*a))))


def exists_(ranges, f):
    vs = []
    for (lo, hi) in ranges:
        _qv[0] += 1
        v = mk('var', (f'q!{_qv[0]}',), 'I')
        vs.append(v)
    body = f(*vs)
    return bnot(mk('forall', (tuple(vs), tuple((lo, hi) for lo, hi in ranges), bnot(body)), 'B'))


# ---------------------------------------------------------------- traversal
def subst(t, m, memo=None):
    """simultaneous substitution; m maps T -> value"""
    if not is_t(t):
        return t
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        u = stack[-1]
        if u.i in memo:
            stack.pop()
            continue
        if u in m:
            memo[u.i] = m[u]
            stack.pop()
            continue
        kids = children(u)
        pend = [k for k in kids if is_t(k) and k.i not in memo]
        if pend:
            stack.extend(pend)
            continue
        memo[u.i] = rebuild(u, lambda k: memo[k.i] if is_t(k) else k)
        stack.pop()
    return memo[t.i]


def children(t):
    if t.op == 'lin':
        return [a for a, _ in t.a[1]]
    if t.op == 'var':
        return []
    if t.op == 'forall':
        return [t.a[2]] + [x for r in t.a[1] for x in r if is_t(x)]
    if t.op in ('app', 'rfun'):
        return [a for a in t.a[1:] if is_t(a)]
    return [a for a in t.a if is_t(a)]


def rebuild(t, g):
    op = t.op
    if op == 'var':
        return t
    if op == 'lin':
        r = t.a[0]
        for a, k in t.a[1]:
            r = iadd(r, imul(g(a), k))
        return r
    if op == 'imul':
        r = 1
        for a in t.a:
            r = imul(r, g(a))
        return r
    if op == 'idiv':
        return idiv(g(t.a[0]), g(t.a[1]))
    if op == 'imod':
        return imod(g(t.a[0]), g(t.a[1]))
    if op == 'radd':
        return radd(g(t.a[0]), g(t.a[1]))
    if op == 'rmul':
        return rmul(g(t.a[0]), g(t.a[1]))
    if op == 'rdiv':
        return rdiv(g(t.a[0]), g(t.a[1]))
    if op == 'sqrt':
        return rsqrt(g(t.a[0]))
    if op == 'toreal':
        return toreal(g(t.a[0]))
    if op == 'ite':
        return ite(g(t.a[0]), g(t.a[1]), g(t.a[2]))
    if op == 'and':
        return band(*[g(x) for x in t.a])
    if op == 'not':
        return bnot(g(t.a[0]))
    if op == 'ile0':
        return ile(g(t.a[0]), 0)
    if op == 'ieq0':
        return ieq(g(t.a[0]), 0)
    if op == 'rlt':
        return rlt(g(t.a[0]), g(t.a[1]))
    if op == 'rle':
        return rle(g(t.a[0]), g(t.a[1]))
    if op == 'req':
        return req(g(t.a[0]), g(t.a[1]))
    if op == 'sel':
        return sel(g(t.a[0]), g(t.a[1]), t.lo, t.hi)
    if op == 'store':
        return store(g(t.a[0]), g(t.a[1]), g(t.a[2]))
    if op == 'karr':
        return karr(g(t.a[0]), t.s[1:])
    if op == 'aeq':
        a, b = g(t.a[0]), g(t.a[1])
        return True if a is b else mk('aeq', (a, b), 'B')
    if op in ('app', 'rfun'):
        return mk(op, (t.a[0],) + tuple(g(a) if is_t(a) else a for a in t.a[1:]), t.s, t.lo, t.hi)
    if op == 'forall':
        return mk('forall', (t.a[0], tuple((g(l) if is_t(l) else l, g(h) if is_t(h) else h) for l, h in t.a[1]),
                             g(t.a[2])), 'B') if g(t.a[2]) is not True else True
    raise NotImplementedError(op)


def atoms(t, pred):
    out = []
    seen = set()
    st = [t] if is_t(t) else []
    while st:
        u = st.pop()
        if u.i in seen:
            continue
        seen.add(u.i)
        if pred(u):
            out.append(u)
        st.extend(children(u))
    return out


def vars_of(t):
    return atoms(t, lambda u: u.op == 'var')


def show(t, depth=6):
    if not is_t(t):
        return str(t)
    if depth == 0:
        return '..'
    op = t.op
    s = lambda x: show(x, depth - 1)
    if op == 'var':
        return t.a[0]
    if op == 'lin':
        return '(' + ' + '.join([str(t.a[0])] * (t.a[0] != 0) + [(f'{k}*' if k != 1 else '') + s(a) for a, k in t.a[1]]) + ')'
    if op in ('app', 'rfun'):
        return f"{t.a[0]}({', '.join(s(x) for x in t.a[1:])})"
    if op == 'sel':
        return f"{s(t.a[0])}[{s(t.a[1])}]"
    if op == 'forall':
        return f"(forall {t.a[0]} in {t.a[1]}. {s(t.a[2])})"
    return f"({op} {' '.join(s(x) for x in t.a)})"


# ---------------------------------------------------------------- numeric evaluation
class Undefined(Exception):
    pass


def evaluate(t, env, funs=None, memo=None, tol=1e-9, exact=False, pol=True):
    """Evaluate under env: T(var) -> value (int/float/Fraction/bool or indexable for arrays).
    With exact=False real comparisons are tolerant in the direction that avoids alarms."""
    if memo is None:
        memo = {}
    funs = funs or {}
    import math

    def close(a, b):
        if a == b:
            return True
        if isinstance(a, Fraction) and isinstance(b, Fraction):
            return False
        a, b = float(a), float(b)
        if a != a or b != b:
            return False
        return abs(a - b) <= tol * (1.0 + max(abs(a), abs(b)))

    def ev(u, pol=True):
        if not is_t(u):
            if isinstance(u, Fraction) and not exact:
                return float(u)
            return u
        k = (u.i, pol) if u.s == 'B' else u.i
        if k in memo:
            return memo[k]
        r = ev1(u, pol)
        memo[k] = r
        return r

    def slack(a, b, pol):
        if exact:
            return 0
        s = tol * (1.0 + max(abs(a), abs(b)))
        if s != s or s == float('inf'):
            s = 0
        return s if pol else -s

    def ev1(u, pol):
        op = u.op
        if op == 'var':
            if u in env:
                return env[u]
            raise Undefined(u.a[0])
        if op == 'lin':
            return u.a[0] + sum(k * ev(a) for a, k in u.a[1])
        if op == 'imul':
            r = 1
            for x in u.a:
                r *= ev(x)
            return r
        if op == 'idiv':
            return ev(u.a[0]) // ev(u.a[1])
        if op == 'imod':
            return ev(u.a[0]) % ev(u.a[1])
        if op == 'radd':
            return ev(u.a[0]) + ev(u.a[1])
        if op == 'rmul':
            return ev(u.a[0]) * ev(u.a[1])
        if op == 'rdiv':
            d = ev(u.a[1])
            n = ev(u.a[0])
            if d == 0:
                if exact:
                    raise Undefined('division by zero')
                n = float(n)
                return float('nan') if n == 0 or n != n else math.copysign(float('inf'), n)
            return n / d
        if op == 'sqrt':
            v = ev(u.a[0])
            if v < 0:
                if v > -1e-12:
                    return 0.0
                return float('nan')
            return math.sqrt(v)
        if op == 'toreal':
            v = ev(u.a[0])
            return Fraction(v) if exact else float(v)
        if op == 'ite':
            return ev(u.a[1]) if ev(u.a[0]) else ev(u.a[2])
        if op == 'and':
            return all(ev(x, pol) for x in u.a)
        if op == 'not':
            return not ev(u.a[0], not pol)
        if op == 'ile0':
            return ev(u.a[0]) <= 0
        if op == 'ieq0':
            return ev(u.a[0]) == 0
        if op == 'rlt' or op == 'rle':
            a, b = ev(u.a[0]), ev(u.a[1])
            if exact:
                return a < b if op == 'rlt' else a <= b
            if a != a or b != b:
                return False
            sl = slack(a, b, pol)
            if sl > 0:
                return a < b + sl
            return (a < b) if (op == 'rlt' and sl == 0) else a <= b + sl
        if op == 'req':
            a, b = ev(u.a[0]), ev(u.a[1])
            return close(a, b) if pol else a == b
        if op == 'sel':
            a = ev(u.a[0])
            i = ev(u.a[1])
            return a(i) if callable(a) else a[i]
        if op == 'store':
            a, i, v = ev(u.a[0]), ev(u.a[1]), ev(u.a[2])
            return lambda j: v if j == i else (a(j) if callable(a) else a[j])
        if op == 'karr':
            v = ev(u.a[0])
            return lambda j: v
        if op in ('app', 'rfun'):
            f = funs.get(u.a[0]) or {'exp': math.exp, 'log': math.log, 'sin': math.sin, 'cos': math.cos,
                                     'pow': pow, 'acos': math.acos, 'tan': math.tan, 'atan2': math.atan2,
                                     'floor': math.floor, 'ceil': math.ceil, 'erf': math.erf}.get(u.a[0])
            if f is None:
                raise Undefined(u.a[0])
            return f(*[ev(x) for x in u.a[1:]])
        if op == 'forall':
            return qforall(u, pol)
        if op == 'aeq':
            raise Undefined('array equality')
        raise NotImplementedError(op)

    def qforall(u, pol):
        vs, rs, body = u.a

        def rec(i, e):
            if i == len(vs):
                return evaluate(body, e, funs, None, tol, exact, pol)
            lo = evaluate(rs[i][0], e, funs, None, tol, exact)
            hi = evaluate(rs[i][1], e, funs, None, tol, exact)
            for k in range(lo, hi):
                e2 = dict(e)
                e2[vs[i]] = k
                if not rec(i + 1, e2):
                    return False
            return True
        return rec(0, dict(env))

    import sys
    if sys.getrecursionlimit() < 100000:
        sys.setrecursionlimit(100000)
    return ev(t, pol)
