"""Verification-condition generation: symbolic execution of LLVM IR with function contracts,
loop invariants (Houdini over contract-supplied candidates) and a typed region memory model."""
import sys
from fractions import Fraction
from . import terms as t
from .terms import T, is_t
from .llvmc import Reg, GRef, Const, UNDEF, Undef, Agg

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class SymbolicLoop(Exception):
    def __init__(self, key):
        self.key = key


class Budget(Exception):
    pass


class Ptr:
    __slots__ = ('r', 'o')

    def __init__(self, r, o):
        self.r = r      # region id, None: null
        self.o = o

    def __repr__(self):
        return f'ptr({self.r},{self.o})'

    def __eq__(self, x):
        return isinstance(x, Ptr) and self.r == x.r and (self.o is x.o or self.o == x.o)

    def __hash__(self):
        return hash(self.r)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class FRef:
    __slots__ = ('name',)

    def __init__(self, n):
        self.name = n

    def __eq__(self, o):
        return isinstance(o, FRef) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class PInt:             # pointer cast to integer, plus an offset
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Bits:             # real value seen as integer bits
    __slots__ = ('v', 'n')

    def __init__(self, v, n):
        self.v = v
        self.n = n


class Vec:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = list(e)


NULL = Ptr(None, 0)


class UndefV:
    def __repr__(self):
        return 'undef'


UV = UndefV()


class Region:
    """content of one memory object"""
    __slots__ = ('kind', 'size', 'cells', 'init', 'fields', 'stride', 'n', 'name', 'freed', 'heap', 'ro', 'ety')

    def copy(self):
        r = Region()
        for s in Region.__slots__:
            setattr(r, s, getattr(self, s))
        r.cells = None if self.cells is None else dict(self.cells)
        r.fields = None if self.fields is None else dict(self.fields)
        return r


def cell_region(name, size, init='undef', heap=False):
    r = Region()
    r.kind = 'cells'
    r.size = size
    r.cells = {}
    r.init = init
    r.fields = None
    r.stride = None
    r.n = None
    r.name = name
    r.freed = False
    r.heap = heap
    r.ro = False
    r.ety = None
    return r


def arr_region(name, n, esize, kind, term=None, lo=None, hi=None, target=None):
    """homogeneous symbolic array of n elements; kind 'I' | 'R' ; esize bytes"""
    r = cell_region(name, None)
    r.kind = 'arr'
    r.n = n
    r.stride = esize
    r.fields = {0: (term if term is not None else t.avar(name, kind), kind, lo, hi, esize)}
    r.ety = kind
    return r


def struct_region(name, n, stride, fields):
    """fields: {off: (term, kind, lo, hi, esize)}"""
    r = cell_region(name, None)
    r.kind = 'arr'
    r.n = n
    r.stride = stride
    r.fields = dict(fields)
    return r


class State:
    __slots__ = ('env', 'mem', 'pc', 'bounds', 'lf', 'cow')

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.pc = []
        self.bounds = {}
        self.lf = {}
        self.cow = set()

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.pc = list(self.pc)
        s.bounds = dict(self.bounds)
        s.lf = dict(self.lf)
        s.cow = set()
        self.cow = set()
        return s

    def wr(self, rid):
        if rid not in self.cow:
            self.mem[rid] = self.mem[rid].copy()
            self.cow.add(rid)
        return self.mem[rid]


class Ob:
    __slots__ = ('kind', 'hyps', 'goal', 'where', 'fn')

    def __init__(self, kind, hyps, goal, where, fn=None):
        self.kind = kind
        self.hyps = hyps
        self.goal = goal
        self.where = where
        self.fn = fn


IGN = ('llvm.lifetime', 'llvm.dbg', 'llvm.assume', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.prefetch',
       'llvm.stackrestore', 'llvm.stacksave', '_ZNSt8ios_base4Init', '__cxa_atexit', 'omp_', 'llvm.va_')


class Exec:
    inv_timeout = 3000          # ms, generic candidates
    inv_timeout_c = 20000       # ms, candidates supplied by the contract

    def __init__(self, mod, prover, contracts=None, invariants=False, cands=None, merge=True, unwind=0,
                 check_bounds=True, check_div=True, max_steps=30_000_000, fork_feas=True, unwind_assert=True,
                 check_abort=True, inline_all=True, feas_rl=400_000):
        self.m = mod
        self.pv = prover
        self.contracts = contracts or {}
        self.inv = invariants
        self.cands = cands
        self.merge_on = merge
        self.unwind = unwind
        self.check_bounds = check_bounds
        self.check_div = check_div
        self.steps = 0
        self.max_steps = max_steps
        self.obs = []
        self.rcount = 0
        self.gmap = {}
        self.gst = {}
        self.assumed = set()
        self.functions = {}
        self.collect = True
        self.fork_feas = fork_feas
        self.unwind_assert = unwind_assert
        self.check_abort = check_abort
        self.loops_inv = []
        self.loops_unrolled = 0
        self.frame = []
        self.loopstack = []
        self.uninit = 0
        self.bounded = False
        self.wlog = None
        self.max_forks = 4000
        self.feas_rl = feas_rl
        self.havocs = 0
        self.div_seen = set()
        self.soft = {}
        self.hcache = {}
        self.discover = False
        self.ilog = None
        self.soft_limit = 3

    # ------------------------------------------------------------- memory objects
    def new_region(self, st, reg):
        self.rcount += 1
        rid = self.rcount
        st.mem[rid] = reg
        st.cow.add(rid)
        return rid

    def global_ptr(self, st, name, off=0):
        name = self.m.alias.get(name, name)
        if name in self.m.fnraw:
            return FRef(name)
        rid = self.gmap.get(name)
        if rid is None:
            from .llvmc import global_vty, get_init, is_decl
            raw = self.m.gvraw[name]
            ty = self.m.ty(global_vty(raw))
            reg = cell_region('@' + name, ty.size or (1 << 20), 'undef')
            if not is_decl(raw):
                ini = get_init(raw)
                if ini:
                    self.fill(reg, 0, ty, self.m.const(ini))
            else:
                reg.init = 'sym'
            self.rcount += 1
            rid = self.rcount
            self.gmap[name] = rid
            self.gst[rid] = reg
        if rid not in st.mem:
            st.mem[rid] = self.gst[rid]
        return Ptr(rid, off)

    def fill(self, reg, off, ty, c):
        if isinstance(c, Agg):
            if isinstance(c.els, tuple):        # ('zero', ty)
                reg.init = 'zero'
                return
            if ty.k == 's':
                for e, et, o in zip(c.els, ty.els, ty.offs):
                    self.fill(reg, off + o, et, e)
            else:
                for i, e in enumerate(c.els):
                    self.fill(reg, off + i * ty.el.size, ty.el, e)
            return
        if isinstance(c, Undef):
            return
        if isinstance(c, GRef):
            reg.cells[off] = (('gref', c.name, c.off), 8)
            return
        v = c.v
        if v == 'null':
            v = NULL
        reg.cells[off] = (v, ty.size)

    # ------------------------------------------------------------- facts
    def assume(self, st, c):
        if c is True:
            return
        if is_t(c) and c.op == 'and':
            for x in c.a:
                self.assume(st, x)
            return
        if c is False:
            st.pc.append(False)
            return
        st.pc.append(c)
        self.learn(st, c)

    def learn(self, st, c):
        if c.op == 'ile0':
            self.prop(st, c.a[0])
        elif c.op == 'ieq0':
            self.prop(st, c.a[0])
            self.prop(st, t.ineg(c.a[0]))

    def prop(self, st, l):
        """l <= 0"""
        c, d = t._lin(l)
        b = st.bounds
        for a, k in d.items():
            # k*a <= -(c + rest_lo)
            lo = c
            for a2, k2 in d.items():
                if a2 is a:
                    continue
                l2, h2 = t.rng(a2, b)
                x = l2 if k2 > 0 else h2
                if x is None:
                    lo = None
                    break
                lo += k2 * x
            if lo is None:
                continue
            al, ah = t.rng(a, b)
            if k > 0:
                h = (-lo) // k
                if ah is None or h < ah:
                    b[a] = (al, h)
            else:
                # a >= lo/(-k)  -> ceil
                q = -((-lo) // (-k))
                if al is None or q > al:
                    b[a] = (q, ah)

    def quick(self, st, c):
        """decide a condition from intervals / syntactic facts; None if unknown"""
        if isinstance(c, bool):
            return c
        if c.op == 'ile0':
            lo, hi = t.rng(c.a[0], st.bounds)
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif c.op == 'ieq0':
            lo, hi = t.rng(c.a[0], st.bounds)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo == 0 and hi == 0:
                return True
        elif c.op == 'not':
            r = self.quick(st, c.a[0])
            return None if r is None else not r
        elif c.op == 'and':
            rs = [self.quick(st, x) for x in c.a]
            if any(r is False for r in rs):
                return False
            if all(r is True for r in rs):
                return True
        for p in st.pc:
            if p is c:
                return True
        n = t.bnot(c)
        if is_t(n):
            for p in st.pc:
                if p is n:
                    return False
        return None

    def ent(self, st, goal, rl=600_000):
        """pc |- goal, cheaply"""
        q = self.quick(st, goal)
        if q is not None:
            return q
        if not st.pc and not is_t(goal):
            return bool(goal)
        r = self.pv.prove(st.pc, goal, rlimit=rl, timeout=4000, cheap=True)
        return r.ok is True

    def oblige(self, kind, st, goal, where=None):
        if goal is True:
            return
        if self.quick(st, goal) is True:
            self.trivial = getattr(self, 'trivial', 0) + 1
            return
        if not self.collect:
            return
        self.obs.append(Ob(kind, list(st.pc), goal, where or (self.frame[-1] if self.frame else '?')))

    # ------------------------------------------------------------- values
    def val(self, st, v, ty=None):
        if isinstance(v, Reg):
            try:
                return st.env[v.i]
            except KeyError:
                raise Unsupported(f'undefined register in {self.frame[-1]}')
        if isinstance(v, Const):
            x = v.v
            if isinstance(x, str):
                return NULL
            if isinstance(x, tuple):
                if x[0] == 'nan':
                    return t.rvar('nan' if x[1] != x[1] else ('+inf' if x[1] > 0 else '-inf'))
                if x[0] == 'nullptr+':
                    return Ptr(None, x[1])
                raise Unsupported(f'constant {x}')
            return x
        if isinstance(v, GRef):
            return self.global_ptr(st, v.name, v.off)
        if v is UNDEF:
            return UV
        if isinstance(v, Agg):
            if isinstance(v.els, tuple):
                raise Unsupported('large aggregate')
            return Vec([self.val(st, e) for e in v.els])
        if v is None:
            return None
        raise Unsupported(f'value {v}')

    # wrap an exact integer into [0, 2^n)
    def wrapn(self, st, x, n):
        if isinstance(x, int):
            return x % (1 << n)
        if x.op == 'imod' and x.a[1] == 1 << n:
            return x
        lo, hi = t.rng(x, st.bounds)
        if lo is not None and hi is not None and lo >= 0 and hi < (1 << n):
            return x
        g = t.band(t.ile(0, x), t.ile(x, (1 << n) - 1))
        if self.ent(st, g):
            return x
        return t.imod(x, 1 << n)

    def signed(self, st, x, n):
        if isinstance(x, int):
            return x - (1 << n) if x >> (n - 1) else x
        lo, hi = t.rng(x, st.bounds)
        if hi is not None and hi < (1 << (n - 1)):
            return x
        if is_t(x) and x.op == 'imod' and x.a[1] == (1 << n):
            y = self.signed_lin(x.a[0], n)
            l, h = t.rng(y, st.bounds)
            if l is not None and h is not None and -(1 << (n - 1)) <= l and h < (1 << (n - 1)):
                return y
            if self.ent(st, t.band(t.ile(-(1 << (n - 1)), y), t.ile(y, (1 << (n - 1)) - 1))):
                return y
        if self.ent(st, t.ile(x, (1 << (n - 1)) - 1)):
            return x
        return t.iite(t.ile(x, (1 << (n - 1)) - 1), x, t.isub(x, 1 << n))

    def signed_lin(self, l, n):
        c, d = t._lin(l)
        h = 1 << (n - 1)
        f = lambda k: k - (1 << n) if k % (1 << n) >= h and 0 <= k < (1 << n) else k
        return t.imk(f(c), {a: f(k) for a, k in d.items()})

    # ------------------------------------------------------------- memory access
    def load(self, st, p, ty):
        if isinstance(p, PIte):
            return self.ite(p.c, self.load(st, p.a, ty), self.load(st, p.b, ty))
        if not isinstance(p, Ptr):
            raise Unsupported(f'load through {p!r}')
        if p.r is None:
            self.oblige('null-dereference', st, False)
            raise Dead()
        if ty.k == 'v':
            return Vec([self.load(st, Ptr(p.r, t.iadd(p.o, i * ty.el.size)), ty.el) for i in range(ty.n)])
        if ty.k in ('s', 'a'):
            if ty.k == 's':
                return Vec([self.load(st, Ptr(p.r, t.iadd(p.o, o)), e) for e, o in zip(ty.els, ty.offs)])
            return Vec([self.load(st, Ptr(p.r, t.iadd(p.o, i * ty.el.size)), ty.el) for i in range(ty.n)])
        reg = st.mem.get(p.r)
        if reg is None:
            raise Unsupported('dangling region')
        if reg.kind == 'arr':
            return self.load_arr(st, reg, p, ty)
        if reg.kind == 'lazy':
            self.settle(reg, ty)
        sz = ty.size
        if is_t(p.o):
            return self.load_sym(st, p, reg, ty)
        self.bound_c(st, reg, p.o, sz)
        return self.load_cell(st, p.r, p.o, ty)

    def bound_c(self, st, reg, off, sz):
        if reg.freed:
            self.oblige('use-after-free', st, False)
        if reg.size is None:
            return
        if is_t(reg.size):
            self.oblige('memory-bounds', st, t.band(off >= 0, t.ile(off + sz, reg.size)), f'{self.frame[-1]}:{reg.name}')
        elif off < 0 or off + sz > reg.size:
            self.oblige('memory-bounds', st, False, f'{self.frame[-1]}:{reg.name}[{off}+{sz} of {reg.size}]')
            raise Dead()

    def load_cell(self, st, rid, off, ty):
        reg = st.mem[rid]
        sz = ty.size
        c = reg.cells.get(off)
        if c is not None and c[1] == sz:
            v = c[0]
            if isinstance(v, tuple) and v and v[0] == 'gref':
                return self.global_ptr(st, v[1], v[2])
            return self.conv(v, ty)
        if c is None:
            # inside another cell?
            for o2 in range(max(0, off - 7), off):
                c2 = reg.cells.get(o2)
                if c2 is not None and o2 + c2[1] > off and c2[1] > 1:
                    v = c2[0]
                    if isinstance(v, int) and not isinstance(v, bool) and ty.k == 'i':
                        return (v >> (8 * (off - o2))) % (1 << ty.n)
                    if ty.k == 'i' and is_t(v) and v.s == 'I':
                        return t.imod(t.idiv(v, 1 << (8 * (off - o2))), 1 << ty.n)
                    raise Unsupported(f'partial load from {reg.name}')
            # combination of smaller cells?
            v = self.init_val(st, rid, off, ty)
            return v
        v, csz = c
        if csz > sz:
            if ty.k == 'i' and isinstance(v, int):
                return v % (1 << (8 * sz)) % (1 << ty.n)
            if ty.k == 'i' and is_t(v) and v.s == 'I':
                return t.imod(v, 1 << ty.n)
            raise Unsupported(f'narrow load from {reg.name}')
        # combine
        if ty.k == 'i':
            parts = []
            o = off
            while o < off + sz:
                c = reg.cells.get(o)
                if c is None:
                    if reg.init == 'zero':
                        o += 1
                        continue
                    raise Unsupported(f'mixed load from {reg.name}')
                parts.append((c[0], o - off))
                o += c[1]
            if all(isinstance(x, int) or (is_t(x) and x.s == 'I') for x, _ in parts):
                r = 0
                for x, k in parts:
                    r = t.iadd(r, t.imul(x, 1 << (8 * k)))
                return r
        raise Unsupported(f'type-punned load ({ty}) from {reg.name}')

    def init_val(self, st, rid, off, ty):
        reg = st.mem[rid]
        if reg.init == 'zero':
            v = NULL if ty.k == 'p' else (Fraction(0) if ty.k == 'f' else 0)
            return v
        if reg.init == 'sym':
            v = self.fresh(ty, f'{reg.name}@{off}')
            reg.cells[off] = (v, ty.size)
            return v
        self.uninit += 1
        return UV

    def fresh(self, ty, name):
        if ty.k == 'i':
            if ty.n == 1:
                return t.bvar(name)
            return t.ivar(name, 0, (1 << ty.n) - 1)
        if ty.k == 'f':
            return t.rvar(name)
        raise Unsupported(f'fresh {ty}')

    def conv(self, v, ty):
        """reinterpret a stored value at a load of type ty"""
        if v is UV:
            return UV
        if ty.k == 'f':
            if isinstance(v, Bits):
                return v.v
            if isinstance(v, int):
                if v == 0:
                    return Fraction(0)
                import struct
                x = struct.unpack('<d', struct.pack('<Q', v))[0] if ty.n == 64 else struct.unpack('<f', struct.pack('<I', v))[0]
                return Fraction(x)
            if is_t(v) and v.s == 'I':
                raise Unsupported('int cell read as float')
            return v
        if ty.k == 'i':
            if isinstance(v, Fraction) or (is_t(v) and v.s == 'R'):
                if isinstance(v, Fraction) and v == 0:
                    return 0
                return Bits(v, ty.n)
            if isinstance(v, (Ptr, PIte, FRef)):
                return PInt(v)
            if ty.n == 1:
                return v if (isinstance(v, bool) or (is_t(v) and v.s == 'B')) else t.bnot(t.eq(t.imod(v, 2), 0))
            if isinstance(v, bool):
                return int(v)
            if is_t(v) and v.s == 'B':
                return t.iite(v, 1, 0)
            return v
        if ty.k == 'p':
            if isinstance(v, PInt):
                return v.p
            if isinstance(v, int):
                return NULL if v == 0 else Ptr(None, v)
            return v
        return v

    def load_sym(self, st, p, reg, ty):
        """symbolic offset into a cell region: case distinction over the cells"""
        sz = ty.size
        cands = self.sym_offsets(st, p, reg, sz)
        r = None
        for o in cands:
            v = self.load_cell(st, p.r, o, ty)
            if v is UV:
                continue
            r = v if r is None else self.ite(t.ieq(p.o, o), v, r)
        if r is None:
            return UV
        return r

    def sym_offsets(self, st, p, reg, sz):
        c, d = t._lin(p.o)
        g = 0
        from math import gcd
        for k in d.values():
            g = gcd(g, abs(k))
        lo, hi = t.rng(p.o, st.bounds)
        if is_t(reg.size) or reg.size is None:
            raise Unsupported('symbolic offset in symbolic-size cell region')
        self.oblige('memory-bounds', st, t.band(t.ile(0, p.o), t.ile(t.iadd(p.o, sz), reg.size)), f'{self.frame[-1]}:{reg.name}')
        lo = 0 if lo is None else max(lo, 0)
        hi = reg.size - sz if hi is None else min(hi, reg.size - sz)
        out = [o for o in range(lo, hi + 1) if (o - c) % g == 0]
        if len(out) > 2048:
            raise Unsupported('symbolic offset with too many cells')
        return out

    def arr_index(self, st, reg, off, sz):
        stride = reg.stride
        c, d = t._lin(off)
        if all(k % stride == 0 for k in d.values()):
            fo = c % stride
            idx = t.imk((c - fo) // stride, {a: k // stride for a, k in d.items()})
            return idx, fo
        # allow an atom with range within the stride? not supported
        raise Unsupported(f'offset {t.show(off) if is_t(off) else off} does not match stride {stride} of {reg.name}')

    def load_arr(self, st, reg, p, ty):
        idx, fo = self.arr_index(st, reg, p.o, ty.size)
        f = reg.fields.get(fo)
        if f is None:
            raise Unsupported(f'no field at {fo} in {reg.name}')
        arr, kind, lo, hi, esz = f
        if self.check_bounds:
            self.oblige('memory-bounds', st, t.band(t.ile(0, idx), t.ile(t.iadd(idx, 1), reg.n)), f'{self.frame[-1]}:{reg.name}')
        if esz != ty.size:
            raise Unsupported(f'element size mismatch in {reg.name}')
        v = t.sel(arr, idx, lo, hi)
        if kind == 'P':
            raise Unsupported('pointer array')
        return self.conv(v, ty)

    def store_(self, st, p, v, ty):
        if isinstance(p, PIte):
            for q, c in ((p.a, p.c), (p.b, t.bnot(p.c))):
                try:
                    old = self.load(st, q, ty)
                except Dead:
                    continue
                self.store_(st, q, self.ite(c, v, old) if old is not UV else v, ty)
            return
        if not isinstance(p, Ptr):
            raise Unsupported(f'store through {p!r}')
        if p.r is None:
            self.oblige('null-dereference', st, False)
            raise Dead()
        if ty.k in ('v', 'a'):
            if v is UV:
                return
            for i in range(ty.n):
                self.store_(st, Ptr(p.r, t.iadd(p.o, i * ty.el.size)), v.e[i], ty.el)
            return
        if ty.k == 's':
            if v is UV:
                return
            for e, o, x in zip(ty.els, ty.offs, v.e):
                self.store_(st, Ptr(p.r, t.iadd(p.o, o)), x, e)
            return
        if ty.k == 'i' and ty.n == 1:
            v = self.ite(v, 1, 0) if not isinstance(v, bool) else int(v)
        reg = st.wr(p.r)
        if reg.ro:
            self.oblige('frame', st, False, f'{self.frame[-1]}:{reg.name} is outside the frame')
        if self.wlog is not None:
            self.wlog.add((p.r, p.o if not is_t(p.o) else None, ty.size, ty.k, ty.n))
        if reg.kind == 'lazy':
            self.settle(reg, ty)
        if reg.kind == 'arr':
            idx, fo = self.arr_index(st, reg, p.o, ty.size)
            f = reg.fields.get(fo)
            if f is None:
                raise Unsupported(f'no field at {fo} in {reg.name}')
            arr, kind, lo, hi, esz = f
            if self.check_bounds:
                self.oblige('memory-bounds', st, t.band(t.ile(0, idx), t.ile(t.iadd(idx, 1), reg.n)),
                            f'{self.frame[-1]}:{reg.name}')
            if esz != ty.size:
                raise Unsupported(f'element size mismatch in {reg.name}')
            if v is UV:
                v = t.ivar(t.fresh_name('undef')) if kind == 'I' else t.rvar(t.fresh_name('undef'))
            if isinstance(v, Bits):
                v = v.v
            if isinstance(v, bool):
                v = int(v)
            if kind == 'R' and isinstance(v, int):
                v = self.conv(v, ty_f64 if esz == 8 else ty_f32)
            if kind == 'I' and is_t(v) and v.s == 'B':
                v = t.iite(v, 1, 0)
            reg.fields[fo] = (t.store(arr, idx, v), kind, lo, hi, esz)
            return
        sz = ty.size
        if is_t(p.o):
            for o in self.sym_offsets(st, p, reg, sz):
                try:
                    old = self.load_cell(st, p.r, o, ty)
                except Unsupported:
                    raise
                if old is UV:
                    old = self.fresh(ty, t.fresh_name('uninit')) if ty.k in 'if' else v
                reg.cells[o] = (self.ite(t.ieq(p.o, o), v, old), sz)
            return
        self.bound_c(st, reg, p.o, sz)
        off = p.o
        c = reg.cells.get(off)
        if c is None or c[1] != sz:
            # remove overlapped cells
            for o2 in range(off - 15, off + sz):
                c2 = reg.cells.get(o2)
                if c2 is not None and o2 + c2[1] > off:
                    if o2 >= off and o2 + c2[1] <= off + sz:
                        del reg.cells[o2]
                    elif isinstance(c2[0], int) and not isinstance(c2[0], bool):
                        # split integer constant into bytes
                        del reg.cells[o2]
                        for b in range(c2[1]):
                            if not (off <= o2 + b < off + sz):
                                reg.cells[o2 + b] = ((c2[0] >> (8 * b)) & 255, 1)
                    else:
                        raise Unsupported(f'partially overlapping store in {reg.name}')
        reg.cells[off] = (v, sz)

    def memcpy(self, st, d, s, n):
        if isinstance(d, PIte) or isinstance(s, PIte):
            raise Unsupported('memcpy through conditional pointer')
        if isinstance(n, int) and n == 0:
            return
        if d.r is None or s.r is None:
            self.oblige('null-dereference', st, t.ieq(n, 0))
            return
        sreg = st.mem[s.r]
        dreg = st.wr(d.r)
        if dreg.ro:
            self.oblige('frame', st, False, f'{self.frame[-1]}:{dreg.name} is outside the frame')
        if self.wlog is not None:
            self.wlog.add((d.r, None, 1, 'i', 8))
        if sreg.kind == 'arr' or dreg.kind == 'arr' or is_t(n) or is_t(d.o) or is_t(s.o):
            if isinstance(n, int) and n <= 4096:
                # element-wise
                es = sreg.stride if sreg.kind == 'arr' else dreg.stride
                if es and n % es == 0:
                    kind = (sreg.fields if sreg.kind == 'arr' else dreg.fields)[0][1]
                    ty = {('R', 8): ty_f64, ('R', 4): ty_f32}.get((kind, es)) or mk_int(es * 8)
                    vs = [self.load(st, Ptr(s.r, t.iadd(s.o, i * es)), ty) for i in range(n // es)]
                    for i, v in enumerate(vs):
                        self.store_(st, Ptr(d.r, t.iadd(d.o, i * es)), v, ty)
                    return
            raise Unsupported('symbolic memcpy')
        self.bound_c(st, sreg, s.o, n)
        self.bound_c(st, dreg, d.o, n)
        src = sorted((o, c) for o, c in sreg.cells.items() if s.o <= o and o + c[1] <= s.o + n)
        # cells straddling are unsupported
        for o, c in sreg.cells.items():
            if (o < s.o < o + c[1]) or (o < s.o + n < o + c[1]):
                raise Unsupported('memcpy splits a cell')
        for o2 in [o for o, c in dreg.cells.items() if o < d.o + n and o + c[1] > d.o]:
            c2 = dreg.cells[o2]
            if o2 < d.o or o2 + c2[1] > d.o + n:
                raise Unsupported('memcpy splits a cell')
            del dreg.cells[o2]
        for o, c in src:
            dreg.cells[o - s.o + d.o] = c
        if sreg.init == 'zero':
            # materialise zero bytes lazily: fill 8-byte aligned gaps
            o = s.o
            have = {}
            for oo, c in src:
                have[oo] = c[1]
            while o < s.o + n:
                if o in have:
                    o += have[o]
                else:
                    k = 1
                    nxt = min([x for x in have if x > o], default=s.o + n)
                    k = 8 if (o % 8 == 0 and nxt - o >= 8) else (4 if (o % 4 == 0 and nxt - o >= 4) else 1)
                    dreg.cells[o - s.o + d.o] = (0, k)
                    o += k
        elif sreg.init == 'sym' and not src:
            raise Unsupported('memcpy from lazily symbolic memory')

    def memset(self, st, d, v, n):
        if isinstance(n, int) and n == 0:
            return
        if isinstance(d, PIte):
            raise Unsupported('memset through conditional pointer')
        if d.r is None:
            self.oblige('null-dereference', st, t.ieq(n, 0))
            return
        reg = st.wr(d.r)
        if self.wlog is not None:
            self.wlog.add((d.r, None, 1, 'i', 8))
        if reg.kind == 'arr':
            es = reg.stride
            if len(reg.fields) == 1 and v in (0, 255):
                arr, kind, lo, hi, esz = reg.fields[0]
                if v == 255 and kind == 'R':
                    raise Unsupported('memset of reals')
                fillv = (Fraction(0) if kind == 'R' else 0) if v == 0 else (1 << (8 * es)) - 1
                idx, fo = self.arr_index(st, reg, d.o, es)
                cnt = t.idiv(n, es)
                if idx == 0 and (t.eq(cnt, reg.n) is True or self.ent(st, t.eq(cnt, reg.n))):
                    reg.fields[0] = (t.karr(fillv, kind), kind, lo, hi, esz)
                    return
                # havoc the range with a quantified fact
                na = t.avar(t.fresh_name(reg.name), kind)
                self.assume(st, t.forall([(idx, t.iadd(idx, cnt))], lambda k: t.eq(t.sel(na, k, lo, hi), fillv)))
                self.assume(st, t.forall([(-(1 << 70), idx)], lambda k: t.eq(t.sel(na, k, lo, hi), t.sel(arr, k, lo, hi))))
                self.assume(st, t.forall([(t.iadd(idx, cnt), 1 << 70)], lambda k: t.eq(t.sel(na, k, lo, hi), t.sel(arr, k, lo, hi))))
                reg.fields[0] = (na, kind, lo, hi, esz)
                return
            raise Unsupported('memset on structured region')
        if is_t(n) or is_t(d.o) or is_t(v):
            raise Unsupported('symbolic memset')
        self.bound_c(st, reg, d.o, n)
        if v == 0 and d.o == 0 and reg.size == n:
            reg.cells = {}
            reg.init = 'zero'
            return
        for o2 in [o for o, c in reg.cells.items() if o < d.o + n and o + c[1] > d.o]:
            c2 = reg.cells[o2]
            if o2 < d.o or o2 + c2[1] > d.o + n:
                raise Unsupported('memset splits a cell')
            del reg.cells[o2]
        o = d.o
        while o < d.o + n:
            k = 8 if (o % 8 == 0 and d.o + n - o >= 8) else (4 if (o % 4 == 0 and d.o + n - o >= 4) else (2 if o % 2 == 0 and d.o + n - o >= 2 else 1))
            reg.cells[o] = (int.from_bytes(bytes([v]) * k, 'little'), k)
            o += k

    # ------------------------------------------------------------- ite on values
    def ite(self, c, a, b):
        if isinstance(c, bool):
            return a if c else b
        if a is b:
            return a
        if a is UV:
            return self.ite(c, self.like(b), b)
        if b is UV:
            return self.ite(c, a, self.like(a))
        ba, bb = (isinstance(a, bool) or is_t(a) and a.s == 'B'), (isinstance(b, bool) or is_t(b) and b.s == 'B')
        if ba != bb:
            if isinstance(a, int) and bb:
                a = bool(a)
            elif isinstance(b, int) and ba:
                b = bool(b)
            else:
                a, b = self.toint(a), self.toint(b)
        if isinstance(a, Bits) or isinstance(b, Bits):
            av = a.v if isinstance(a, Bits) else Fraction(0)
            bv = b.v if isinstance(b, Bits) else Fraction(0)
            return Bits(t.ite(c, av, bv), a.n if isinstance(a, Bits) else b.n)
        if isinstance(a, (Ptr, PIte, FRef)) or isinstance(b, (Ptr, PIte, FRef)):
            if a == b:
                return a
            return PIte(c, a, b)
        if isinstance(a, PInt) and isinstance(b, PInt):
            return PInt(self.ite(c, a.p, b.p))
        if isinstance(a, Vec):
            return Vec([self.ite(c, x, y) for x, y in zip(a.e, b.e)])
        if isinstance(a, tuple) or isinstance(b, tuple):
            if a == b:
                return a
            raise Unsupported('merge of globals')
        return t.ite(c, a, b)

    def like(self, v):
        """arbitrary value of the sort of v (an uninitialised or undefined value)"""
        if isinstance(v, bool) or (is_t(v) and v.s == 'B'):
            return t.bvar(t.fresh_name('uninit'))
        if isinstance(v, int) or (is_t(v) and v.s == 'I'):
            return t.ivar(t.fresh_name('uninit'))
        if isinstance(v, Fraction) or (is_t(v) and v.s == 'R'):
            return t.rvar(t.fresh_name('uninit'))
        return v

    # ------------------------------------------------------------- merging of states
    def mergeable(self, a, b):
        return True

    def merge(self, sts):
        """merge states that reached the same block (phis evaluated)"""
        sts = [s for s in sts if not any(x is False for x in s.pc)]
        if len(sts) <= 1 or not self.merge_on:
            return sts
        out = [sts[0]]
        for s in sts[1:]:
            m = self.merge2(out[-1], s)
            if m is None:
                out.append(s)
            else:
                out[-1] = m
        return out

    def merge2(self, a, b):
        n = 0
        la, lb = a.pc, b.pc
        while n < len(la) and n < len(lb) and la[n] is lb[n]:
            n += 1
        ca = t.band(*la[n:])
        cb = t.band(*lb[n:])
        if ca is False:
            return b
        if cb is False:
            return a
        if ca is True and cb is True:
            pass
        c = ca
        # choose the simpler of ca / not cb when complementary
        r = State()
        r.pc = list(la[:n])
        d = t.bor(ca, cb)
        if d is not True:
            r.pc.append(d)
        try:
            for k, v in a.env.items():
                w = b.env.get(k, UV)
                if k not in b.env:
                    continue
                r.env[k] = v if v is w else self.ite(c, v, w)
            for rid in set(a.mem) | set(b.mem):
                x, y = a.mem.get(rid), b.mem.get(rid)
                if x is None:
                    r.mem[rid] = y
                elif y is None:
                    r.mem[rid] = x
                elif x is y:
                    r.mem[rid] = x
                else:
                    r.mem[rid] = self.merge_reg(c, x, y)
        except Unsupported:
            return None
        for k, (l, h) in a.bounds.items():
            if k in b.bounds:
                l2, h2 = b.bounds[k]
                r.bounds[k] = (None if l is None or l2 is None else min(l, l2),
                               None if h is None or h2 is None else max(h, h2))
        for k in set(a.lf) & set(b.lf):
            r.lf[k] = a.lf[k] and b.lf[k]
        return r

    def merge_reg(self, c, x, y):
        if x.kind != y.kind:
            raise Unsupported('merge kinds')
        r = x.copy()
        if x.freed != y.freed:
            r.freed = False
        if x.kind == 'arr':
            for k in x.fields:
                fx, fy = x.fields[k], y.fields[k]
                if fx[0] is not fy[0]:
                    r.fields[k] = (self.merge_arr(c, fx[0], fy[0], fx[2], fx[3]),) + fx[1:]
            return r
        if x.init != y.init:
            raise Unsupported('merge of differently initialised regions')
        for o in set(x.cells) | set(y.cells):
            cx, cy = x.cells.get(o), y.cells.get(o)
            if cx is None or cy is None:
                z = cx or cy
                if x.init == 'zero':
                    zero = Fraction(0) if (isinstance(z[0], Fraction) or (is_t(z[0]) and z[0].s == 'R')) else (
                        NULL if isinstance(z[0], (Ptr, PIte)) else 0)
                    cx = cx or (zero, z[1])
                    cy = cy or (zero, z[1])
                elif x.init == 'sym':
                    raise Unsupported('merge lazily symbolic')
                else:
                    r.cells[o] = (self.ite(c, z[0] if cx else UV, z[0] if cy else UV), z[1])
                    continue
            if cx[1] != cy[1]:
                raise Unsupported('merge of cells of different size')
            if cx[0] is not cy[0]:
                r.cells[o] = (self.ite(c, self.norm(cx[0]), self.norm(cy[0])), cx[1])
        return r

    def merge_arr(self, c, x, y, lo, hi):
        """ite over arrays, keeping a single store where both sides differ at one index only"""
        def chain(a):
            out = []
            while a.op == 'store':
                out.append(a)
                a = a.a[0]
            return out, a
        cx, bx = chain(x)
        cy, by = chain(y)
        if bx is by and len(cx) <= 12 and len(cy) <= 12:
            base = None
            ys = {a.i for a in cy} | {by.i}
            for a in cx + [bx]:
                if a.i in ys:
                    base = a
                    break
            idx = []
            for ch in (cx, cy):
                for a in ch:
                    if a is base:
                        break
                    if not any(t.ieq(a.a[1], i) is True for i in idx):
                        idx.append(a.a[1])
            if len(idx) == 1 or all(t.ieq(i, j) is False for k, i in enumerate(idx) for j in idx[k + 1:]):
                r = base
                for i in idx:
                    r = t.store(r, i, t.ite(c, t.sel(x, i, lo, hi), t.sel(y, i, lo, hi)))
                return r
        return t.ite(c, x, y)

    def norm(self, v):
        if isinstance(v, bool):
            return int(v)
        if is_t(v) and v.s == 'B':
            return t.iite(v, 1, 0)
        return v

    # ------------------------------------------------------------- control flow
    def call_fn(self, st, name, args):
        """returns list of (state, value)"""
        f = self.m.fn(name)
        if f is None:
            raise Unsupported(f'no body for {name}')
        self.functions[name] = self.functions.get(name, 0) + 1
        if len(self.frame) > 200:
            raise Unsupported('recursion')
        saved = st.env
        slf = st.lf
        st.env = {}
        st.lf = {}
        for p, a in zip(f.params, args):
            st.env[p] = a
        self.frame.append(name)
        try:
            outs = self.run(f, st, 0, frozenset(), fresh_entry=True)
        finally:
            self.frame.pop()
        res = []
        for o in outs:
            assert o[0] == 'ret'
            _, s, v = o
            s.env = {-1: v}
            s.lf = {}
            res.append(s)
        res = self.merge(res)
        out = []
        for s in res:
            v = s.env.get(-1)
            s.env = dict(saved)
            s.lf = dict(slf)
            out.append((s, v))
        return out

    def edge(self, f, st, pred, blk):
        """evaluate the phis of blk for the edge pred->blk"""
        B = f.blocks[blk]
        if B.phis:
            vs = [(p.d, self.val(st, p.a[pred])) for p in B.phis]
            for d, v in vs:
                st.env[d] = v

    def run(self, f, st, blk, stops, fresh_entry=False, entered=None):
        """Execute from the start of blk (phis already evaluated) until a stop block or a return.
        Outcomes: ('at', blk, state) | ('ret', state, value)"""
        outs = []
        work = [(st, blk, True)]
        while work:
            st, blk, entry = work.pop()
            while True:
                if blk in f.loops and entered != blk and entry:
                    # entering a loop from outside
                    r = self.loop(f, st, blk, stops)
                    # r: list of outcomes; those 'at' non-stop blocks continue here
                    cont = []
                    for o in r:
                        if o[0] == 'at' and o[1] not in stops:
                            cont.append(o)
                        else:
                            outs.append(o)
                    if not cont:
                        st = None
                        break
                    for o in cont[1:]:
                        work.append((o[2], o[1], True))
                    st, blk, entry = cont[0][2], cont[0][1], True
                    if len(outs) + len(work) > self.max_forks:
                        raise Budget('too many paths')
                    continue
                entered = None
                try:
                    res = self.block(f, st, blk)
                except Dead:
                    res = None
                if res is None:
                    st = None
                    break
                kind = res[0]
                if kind == 'forked':
                    # a call inside the block returned several states: each continues after it
                    for (s2, idx) in res[1][1:]:
                        sub = self.resume(f, s2, blk, idx, stops)
                        outs.extend(sub)
                    sub = self.resume(f, res[1][0][0], blk, res[1][0][1], stops)
                    outs.extend(sub)
                    st = None
                    break
                if kind == 'ret':
                    outs.append(('ret', st, res[1]))
                    st = None
                    break
                nxt = self.term(f, st, blk, res, stops)
                # nxt: list of outcomes or ('go', state, succ)
                if nxt[0] == 'go':
                    st = nxt[1]
                    blk2 = nxt[2]
                    if blk2 in stops:
                        outs.append(('at', blk2, st))
                        st = None
                        break
                    entry = not (blk2 in f.loops and blk in f.loops[blk2])
                    if not entry:
                        try:
                            self.backedge(f, st, blk2)
                        except Dead:
                            st = None
                            break
                    blk = blk2
                    continue
                # list
                cont = []
                for o in nxt[1]:
                    if o[0] == 'at' and o[1] not in stops:
                        cont.append(o)
                    else:
                        outs.append(o)
                for o in cont:
                    e = not (o[1] in f.loops and len(o) > 3 and o[3])
                    work.append((o[2], o[1], e))
                if len(outs) + len(work) > self.max_forks:
                    raise Budget('too many paths')
                st = None
                break
        return outs

    def resume(self, f, st, blk, idx, stops):
        """continue inside block blk after instruction idx"""
        outs = []
        try:
            res = self.block(f, st, blk, idx)
        except Dead:
            return []
        if res is None:
            return []
        if res[0] == 'forked':
            for (s2, i2) in res[1]:
                outs.extend(self.resume(f, s2, blk, i2, stops))
            return outs
        if res[0] == 'ret':
            return [('ret', st, res[1])]
        nxt = self.term(f, st, blk, res, stops)
        if nxt[0] == 'go':
            lst = [('at', nxt[2], nxt[1], nxt[2] in f.loops and blk in f.loops[nxt[2]])]
        else:
            lst = nxt[1]
        for o in lst:
            if o[0] == 'at' and o[1] not in stops:
                if len(o) > 3 and o[3]:
                    if nxt[0] == 'go':
                        try:
                            self.backedge(f, o[2], o[1])
                        except Dead:
                            continue
                    outs.extend(self.run(f, o[2], o[1], stops, entered=o[1]))
                else:
                    outs.extend(self.run(f, o[2], o[1], stops))
            else:
                outs.append(o)
        return outs

    def backedge(self, f, st, hdr):
        k = (len(self.frame), hdr)
        v = st.lf.get(k)
        if v is True:
            st.lf[k] = None
            return
        # no concrete exit test in the last iteration
        if self.inv:
            raise SymbolicLoop(k)
        n = (v or 0) + 1
        if n > self.unwind:
            self.bounded = True
            if self.unwind_assert:
                self.oblige('unwinding', st, False, f'{self.frame[-1]} loop {hdr} beyond {self.unwind} iterations')
            st.pc.append(False)
            raise Dead()
        st.lf[k] = n

    def note_exit(self, f, st, blk, tgt_concrete):
        """a branch at blk had a concrete outcome: it counts as exit test for every loop it can leave"""
        for h, body in f.loops.items():
            if blk in body and any(s not in body for s in f.blocks[blk].succ):
                k = (len(self.frame), h)
                if tgt_concrete:
                    st.lf[k] = True
                else:
                    self.soft[k] = self.soft.get(k, 0) + 1
                    if self.soft[k] <= self.soft_limit or not self.inv:
                        st.lf[k] = True

    def term(self, f, st, blk, res, stops):
        kind = res[0]
        if kind == 'br':
            s = res[1]
            self.edge(f, st, blk, s)
            return ('go', st, s)
        # conditional: list of (cond, succ)
        alts = res[1]
        live = []
        for c, s in alts:
            q = self.quick(st, c)
            if q is True:
                live = [(True, s)]
                break
            if q is False:
                continue
            live.append((c, s))
        if len(live) > 1 and self.fork_feas:
            l2 = []
            for c, s in live:
                r = self.pv.prove(st.pc, t.bnot(c), rlimit=self.feas_rl, timeout=2000, cheap=True)
                if r.ok is True:
                    continue
                l2.append((c, s))
            live = l2
        if not live:
            return ('list', [])
        if len(live) == 1:
            c, s = live[0]
            self.note_exit(f, st, blk, False)
            if c is not True:
                self.assume(st, c)
            self.edge(f, st, blk, s)
            return ('go', st, s)
        ip = f.ipdom[blk]
        n = len(f.blocks)
        st2 = set(stops)
        join = ip is not None and ip < n and ip not in stops
        if join:
            st2.add(ip)
        st2 = frozenset(st2)
        outs = []
        at = []
        for i, (c, s) in enumerate(live):
            s2 = st if i == len(live) - 1 else st.copy()
            if i == len(live) - 1:
                s2.cow = set()
            self.assume(s2, c)
            if any(x is False for x in s2.pc):
                continue
            self.edge(f, s2, blk, s)
            if s in st2:
                o = [('at', s, s2)]
            else:
                back = s in f.loops and blk in f.loops[s]
                try:
                    if back:
                        self.backedge(f, s2, s)
                        o = self.run(f, s2, s, st2, entered=s)
                    else:
                        o = self.run(f, s2, s, st2)
                except Dead:
                    o = []
            for x in o:
                if join and x[0] == 'at' and x[1] == ip:
                    at.append(x[2])
                else:
                    outs.append(x)
        back = join and ip in f.loops and blk in f.loops[ip]
        if at:
            ms = self.merge(at)
            for s in ms:
                if back:
                    try:
                        self.backedge(f, s, ip)
                    except Dead:
                        continue
                outs.append(('at', ip, s, True) if back else ('at', ip, s))
        # merge outcomes at common stops
        return ('list', self.merge_outs(outs))

    def merge_outs(self, outs):
        if not self.merge_on:
            return outs
        by = {}
        rest = []
        for o in outs:
            if o[0] == 'at':
                by.setdefault((o[1], len(o) > 3 and o[3]), []).append(o[2])
            else:
                rest.append(o)
        for (b, bk), ss in by.items():
            for s in self.merge(ss):
                rest.append(('at', b, s, True) if bk else ('at', b, s))
        return rest

    # ------------------------------------------------------------- loops
    def loop(self, f, st, hdr, stops):
        body = f.loops[hdr]
        exits = set()
        for b in body:
            for s in f.blocks[b].succ:
                if s not in body:
                    exits.add(s)
        n = len(f.blocks)
        key = (len(self.frame), hdr)
        st.lf.pop(key, None)
        self.soft.pop(key, None)
        outs = None
        force_inv = False
        if self.inv:
            snap = st.copy()
            nobs = len(self.obs)
            try:
                outs = self.run(f, st, hdr, frozenset(set(stops) | exits), entered=hdr)
                self.loops_unrolled += 1
            except SymbolicLoop as e:
                if e.key != key:
                    raise
                del self.obs[nobs:]
                outs = self.houdini(f, snap, hdr, frozenset(set(stops) | exits))
        else:
            outs = self.run(f, st, hdr, frozenset(set(stops) | exits), entered=hdr)
        outs = self.merge_outs(outs)
        for o in outs:
            if o[0] == 'at':
                o[2].lf.pop(key, None)
        # several exit blocks: run to the common postdominator and merge there
        ats = [o for o in outs if o[0] == 'at' and o[1] not in stops]
        if len(set(o[1] for o in ats)) > 1 or (len(ats) > 1 and self.merge_on):
            j = f.ipdom[hdr]
            while j is not None and j < n and j in body:
                j = f.ipdom[j]
            if j is not None and j < n and j not in stops:
                res = [o for o in outs if not (o[0] == 'at' and o[1] not in stops)]
                at = []
                for o in ats:
                    if o[1] == j:
                        at.append(o[2])
                        continue
                    for x in self.run(f, o[2], o[1], frozenset(set(stops) | {j})):
                        if x[0] == 'at' and x[1] == j:
                            at.append(x[2])
                        else:
                            res.append(x)
                back = j in f.loops and hdr in f.loops[j]
                for s in self.merge(at):
                    if back:
                        try:
                            self.backedge(f, s, j)
                        except Dead:
                            continue
                    res.append(('at', j, s, True) if back else ('at', j, s))
                return self.relabel(f, hdr, res, stops)
        return self.relabel(f, hdr, outs, stops)

    def relabel(self, f, hdr, outs, stops):
        """an exit edge that is the back edge of an enclosing loop must not count as a fresh loop entry"""
        res = []
        for o in outs:
            if o[0] == 'at' and o[1] not in stops and o[1] in f.loops and hdr in f.loops[o[1]]:
                if not (len(o) > 3 and o[3]):
                    try:
                        self.backedge(f, o[2], o[1])
                    except Dead:
                        continue
                for x in self.run(f, o[2], o[1], stops, entered=o[1]):
                    res.append(x)
            else:
                res.append(o)
        return res

    def houdini(self, f, st0, hdr, stops):
        """cut the loop with an inductive invariant"""
        body = f.loops[hdr]
        B = f.blocks[hdr]
        exits = set(s for b in body for s in f.blocks[b].succ if s not in body)
        phis = B.phis
        modified = {}
        inner_stops = frozenset(set(stops) | exits | {hdr})
        self.havocs += 1
        tag = f'L{self.havocs}'
        init_env = {p.d: st0.env[p.d] for p in phis}

        def havoc():
            s = st0.copy()
            s.lf.pop((len(self.frame), hdr), None)
            names = []
            for p in phis:
                v0 = init_env[p.d]
                nm = f'{tag}.p{p.d}'
                if p.ty.k == 'p':
                    if isinstance(v0, Ptr) and v0.r is not None:
                        reg = s.mem[v0.r]
                        es = reg.stride or 8
                        k = t.ivar(nm, 0, 1 << 60)
                        s.env[p.d] = Ptr(v0.r, t.iadd(v0.o, t.imul(k, es)))
                    else:
                        raise Unsupported('pointer phi in symbolic loop')
                else:
                    s.env[p.d] = self.fresh(p.ty, nm)
            for rid, what in modified.items():
                reg = s.wr(rid)
                if reg.kind == 'arr':
                    for fo in list(reg.fields):
                        a, kind, lo, hi, esz = reg.fields[fo]
                        reg.fields[fo] = (t.avar(f'{tag}.{reg.name}.{fo}', kind), kind, lo, hi, esz)
                else:
                    for (off, sz, k, nb) in what:
                        if off is None:
                            raise Unsupported('symbolic write to a cell region inside a symbolic loop')
                        ty = ty_f64 if (k == 'f' and sz == 8) else (ty_f32 if k == 'f' else mk_int(nb if nb and nb > 1 else sz * 8))
                        if k == 'p':
                            raise Unsupported('pointer cell modified in a symbolic loop')
                        reg.cells[off] = (self.fresh(ty, f'{tag}.{reg.name}.{off}'), sz)
            return s

        # 1. discover modified memory
        qm = self.pv.quick_mode
        self.pv.quick_mode = True
        col = self.collect
        self.collect = False
        saved_w = self.wlog
        alllogs = set()
        disc = self.discover
        self.discover = True
        saved_i = self.ilog
        self.ilog = set()
        hn = self.havocs
        for _ in range(12):
            s = havoc()
            known = set(s.mem)
            self.wlog = set()
            self.loopstack.append((f, hdr, s, tag))
            try:
                self.run(f, s, hdr, inner_stops, entered=hdr)
            finally:
                self.loopstack.pop()
            new = False
            for (rid, off, sz, k, nb) in self.wlog:
                if rid in known and rid in st0.mem:
                    alllogs.add((rid, off, sz, k, nb))
                    w = modified.setdefault(rid, set())
                    if st0.mem[rid].kind == 'arr':
                        if not w:
                            w.add(0)
                            new = True
                    elif (off, sz, k, nb) not in w:
                        w.add((off, sz, k, nb))
                        new = True
            if not new:
                break
        self.discover = disc
        own = lambda nm: nm[0] == 'L' and nm[1:2].isdigit() and int(nm[1:].split('.')[0]) >= hn
        inv_terms = [x for x in self.ilog if not any(own(w.a[0]) for w in t.vars_of(x))]
        inv_terms.sort(key=lambda x: x.i)
        self.ilog = saved_i
        if self.ilog is not None:
            self.ilog.update(inv_terms)
        self.wlog = saved_w
        if self.wlog is not None:
            self.wlog |= alllogs
        hkey = (tuple(self.frame), hdr)
        # 2. candidates
        lc = LoopCtx(self, f, hdr, phis, st0, init_env, modified, tag)
        lc.inv_terms = inv_terms
        cands = [('g.' + nm, g) for nm, g in lc.generic()]
        if self.cands:
            cands += list(self.cands(lc))
        cands = [(f'{i}:{nm}', g) for i, (nm, g) in enumerate(cands)]
        tmo = lambda nm: self.inv_timeout if ':g.' in nm else self.inv_timeout_c
        if disc:
            cands = []
        prev = self.hcache.get(hkey) if len(self.loopstack) else None
        if prev is not None:
            cands = [c for c in cands if c[0] in prev]
        # entry check
        ent = []
        for nm, g in cands:
            v = self.tryc(g, lc.view(st0, True))
            if v is None:
                continue
            r = self.pv.prove(st0.pc, v, timeout=tmo(nm))
            if r.ok is True:
                ent.append((nm, g))
        cands = ent
        # 3. Houdini
        it = 0
        while cands or not disc:
            it += 1
            s = havoc()
            hyps = []
            for nm, g in cands:
                v = self.tryc(g, lc.view(s, False))
                self.assume(s, v)
            self.loopstack.append((f, hdr, s, tag))
            try:
                o2 = self.run(f, s, hdr, inner_stops, entered=hdr)
            finally:
                self.loopstack.pop()
            drop = set()
            for o in o2:
                if o[0] == 'at' and o[1] == hdr:
                    vw = lc.view(o[2], False)
                    for i, (nm, g) in enumerate(cands):
                        if i in drop:
                            continue
                        v = self.tryc(g, vw)
                        r = self.pv.prove(o[2].pc, v, timeout=tmo(nm)) if v is not None else None
                        if r is None or r.ok is not True:
                            drop.add(i)
            if not drop:
                break
            cands = [c for i, c in enumerate(cands) if i not in drop]
        self.collect = col
        self.pv.quick_mode = qm
        if not disc:
            self.hcache[hkey] = set(nm for nm, _ in cands)
            # forget the results of inner loops: a later entry of this loop starts afresh
            if not self.loopstack:
                self.hcache = {k: v for k, v in self.hcache.items() if k == hkey} and {}
        # 4. final pass with obligations
        s = havoc()
        for nm, g in cands:
            self.assume(s, self.tryc(g, lc.view(s, False)))
        self.loopstack.append((f, hdr, s, tag))
        try:
            o2 = self.run(f, s, hdr, inner_stops, entered=hdr)
        finally:
            self.loopstack.pop()
        if col:
            self.loops_inv.append((f.name, hdr, [nm for nm, _ in cands], it))
            # record the invariant obligations that were proved
            self.inv_obs = getattr(self, 'inv_obs', 0) + 2 * len(cands)
        return [o for o in o2 if not (o[0] == 'at' and o[1] == hdr)]

    def tryc(self, g, view):
        try:
            return g(view)
        except (KeyError, AttributeError, TypeError, Unsupported):
            return None

    # ------------------------------------------------------------- straight-line code
    def block(self, f, st, blk, start=0):
        B = f.blocks[blk]
        ins = B.ins
        n = len(ins)
        i = start
        env = st.env
        self.steps += n - start
        if self.steps > self.max_steps:
            raise Budget('instruction budget')
        while i < n:
            I = ins[i]
            op = I.op
            if op == 'load':
                env[I.d] = self.load(st, self.val(st, I.a[0]), I.ty)
            elif op == 'store':
                self.store_(st, self.val(st, I.a[1]), self.val(st, I.a[0]), I.aty[0])
            elif op == 'gep':
                env[I.d] = self.gep(st, I)
            elif op == 'call' or op == 'invoke':
                r = self.call(st, I)
                if r is None:
                    return None
                if r[0] == 'val':
                    env[I.d] = r[1]
                else:
                    # list of (state, value)
                    lst = []
                    for s2, v in r[1]:
                        s2.env[I.d] = v
                        lst.append((s2, i + 1))
                    if not lst:
                        return None
                    if len(lst) == 1 and lst[0][0] is st:
                        env = st.env
                    elif len(lst) == 1:
                        # adopt the state in place
                        s2 = lst[0][0]
                        for sl in State.__slots__:
                            setattr(st, sl, getattr(s2, sl))
                        env = st.env
                    else:
                        if op == 'invoke':
                            raise Unsupported('forking invoke')
                        return ('forked', lst)
                if op == 'invoke':
                    return ('br', I.x[1])
            elif op == 'br':
                if len(I.x) == 1:
                    return ('br', I.x[0])
                c = self.val(st, I.a[0])
                if c is UV:
                    c = t.bvar(t.fresh_name('undefbr'))
                if isinstance(c, int) and not isinstance(c, bool):
                    c = bool(c)
                if isinstance(c, bool):
                    self.note_exit(f, st, blk, True)
                    return ('br', I.x[0] if c else I.x[1])
                return ('cond', [(c, I.x[0]), (t.bnot(c), I.x[1])])
            elif op == 'ret':
                return ('ret', self.val(st, I.a[0]) if I.a else None)
            elif op == 'switch':
                v = self.val(st, I.a[0])
                cases, dflt = I.x
                if isinstance(v, int):
                    for cv, b in cases:
                        if cv == v:
                            return ('br', b)
                    return ('br', dflt)
                alts = []
                neg = []
                for cv, b in cases:
                    alts.append((t.ieq(v, cv), b))
                    neg.append(t.bnot(t.ieq(v, cv)))
                alts.append((t.band(*neg), dflt))
                return ('cond', alts)
            elif op == 'unreachable':
                self.oblige('unreachable', st, False)
                return None
            else:
                env[I.d] = self.arith(st, I)
            i += 1
        raise Unsupported('block without terminator')

    def gep(self, st, I):
        p = self.val(st, I.a[0])
        off = 0
        for (k, s), a in zip(I.x, I.a[1:]):
            if k == 'c':
                off = t.iadd(off, s)
                continue
            v = self.val(st, a)
            if v is UV:
                raise Unsupported('undef index')
            if isinstance(v, PInt):
                raise Unsupported('pointer index')
            w = 64
            ai = I.aty[1 + I.a[1:].index(a)] if False else None
            v = self.signed(st, v, 64) if not (isinstance(v, int) and v < (1 << 31)) else v
            off = t.iadd(off, t.imul(v, s))
        return self.padd(p, off)

    def padd(self, p, off):
        if isinstance(p, PIte):
            return PIte(p.c, self.padd(p.a, off), self.padd(p.b, off))
        if isinstance(p, Ptr):
            return Ptr(p.r, t.iadd(p.o, off))
        if p is UV:
            return UV
        if isinstance(p, FRef) and off == 0:
            return p
        raise Unsupported(f'gep on {p!r}')

    def arith(self, st, I):
        op = I.op
        V = lambda j: self.val(st, I.a[j])
        if I.ty.k == 'v' and op not in ('load', 'extractelement', 'insertelement', 'shufflevector', 'select', 'bitcast'):
            xs = [V(j) for j in range(len(I.a))]
            if any(x is UV for x in xs):
                xs = [Vec([UV] * I.ty.n) if x is UV else x for x in xs]
            return Vec([self.op1(st, op, I, [x.e[k] for x in xs], I.ty.el,
                                 [a.el if a.k == 'v' else a for a in I.aty]) for k in range(I.ty.n)])
        if op == 'alloca':
            n = V(0)
            if not isinstance(n, int):
                raise Unsupported('variable-size alloca')
            rid = self.new_region(st, cell_region(f'alloca{I.d}@{self.frame[-1][-24:]}', I.x.size * n))
            return Ptr(rid, 0)
        if op == 'extractelement':
            v, i = V(0), V(1)
            if v is UV:
                return UV
            return v.e[i]
        if op == 'insertelement':
            v, e, i = V(0), V(1), V(2)
            if v is UV:
                v = Vec([UV] * I.ty.n)
            r = Vec(v.e)
            r.e[i] = e
            return r
        if op == 'shufflevector':
            a, b = V(0), V(1)
            n = I.aty[0].n
            ae = [UV] * n if a is UV else a.e
            be = [UV] * n if b is UV else b.e
            al = ae + be
            return Vec([UV if m < 0 else al[m] for m in I.x])
        if op == 'extractvalue':
            v = V(0)
            for k in I.x:
                if v is UV:
                    return UV
                v = v.e[k]
            return v
        if op == 'insertvalue':
            v, e = V(0), V(1)

            def ins(v, ix, ty):
                if v is UV:
                    v = Vec([UV] * (ty.n if ty.k == 'a' else len(ty.els)))
                r = Vec(v.e)
                et = ty.el if ty.k == 'a' else ty.els[ix[0]]
                r.e[ix[0]] = e if len(ix) == 1 else ins(v.e[ix[0]], ix[1:], et)
                return r
            return ins(v, list(I.x), I.ty)
        if op == 'select':
            c, a, b = V(0), V(1), V(2)
            if isinstance(c, Vec):
                return Vec([self.ite(x, y, z) for x, y, z in zip(c.e, a.e, b.e)])
            if c is UV:
                return UV
            if is_t(c):
                q = self.quick(st, c)
                if q is not None:
                    c = q
            return self.ite(c, a, b)
        return self.op1(st, op, I, [V(j) for j in range(len(I.a))], I.ty, I.aty)

    def op1(self, st, op, I, xs, ty, aty):
        if op == 'icmp':
            if self.ilog is not None:
                for x in xs:
                    if is_t(x) and x.s == 'I':
                        self.ilog.add(x)
            return self.icmp(st, I.x, xs[0], xs[1], aty[0])
        if op == 'freeze':
            return xs[0]
        if any(x is UV for x in xs):
            return UV
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fneg', 'frem'):
            a = xs[0]
            if op == 'fneg':
                return t.rneg(a)
            b = xs[1]
            if op == 'fadd':
                return t.radd(a, b)
            if op == 'fsub':
                return t.rsub(a, b)
            if op == 'fmul':
                return t.rmul(a, b)
            if op == 'fdiv':
                if not is_t(b):
                    if b == 0:
                        if self.check_div:
                            self.oblige('division-by-zero', st, False)
                            raise Dead()
                        return t.rvar(t.fresh_name('inf'))
                elif self.check_div:
                    self.oblige('division-by-zero', st, t.bnot(t.req(b, Fraction(0))))
                return t.rdiv(a, b)
            raise Unsupported(op)
        if op == 'fcmp':
            a, b = xs
            p = I.x
            if p in ('oeq', 'ueq'):
                return t.req(a, b)
            if p in ('one', 'une'):
                return t.bnot(t.req(a, b))
            if p in ('olt', 'ult'):
                return t.rlt(a, b)
            if p in ('ole', 'ule'):
                return t.rle(a, b)
            if p in ('ogt', 'ugt'):
                return t.rlt(b, a)
            if p in ('oge', 'uge'):
                return t.rle(b, a)
            if p in ('ord', 'true'):
                return True
            return False
        if op in ('fptrunc', 'fpext'):
            return xs[0]
        if op in ('uitofp', 'sitofp'):
            x = xs[0]
            if aty[0].n == 1:
                return t.ite(x, Fraction(1), Fraction(0)) if not isinstance(x, bool) else Fraction(int(x))
            if op == 'sitofp':
                x = self.signed(st, x, aty[0].n)
            return t.toreal(x)
        if op in ('fptoui', 'fptosi'):
            x = xs[0]
            if not is_t(x):
                return int(x) % (1 << ty.n)
            if x.op == 'toreal':
                return x.a[0]
            r = t.ivar(t.fresh_name('fptoi'), 0, (1 << ty.n) - 1)
            # truncation of a non-negative real
            self.assume(st, t.implies(t.rle(Fraction(0), x), t.band(t.rle(t.toreal(r), x), t.rlt(x, t.toreal(t.iadd(r, 1))))))
            return r
        if op == 'bitcast':
            x = xs[0]
            if aty[0].k == ty.k:
                return x
            if ty.k == 'i' and aty[0].k == 'f':
                return Bits(x, ty.n)
            if ty.k == 'f' and aty[0].k == 'i':
                return x.v if isinstance(x, Bits) else self.conv(x, ty)
            raise Unsupported('bitcast')
        if op == 'ptrtoint':
            return PInt(xs[0])
        if op == 'inttoptr':
            x = xs[0]
            if isinstance(x, PInt):
                return x.p
            if x == 0:
                return NULL
            raise Unsupported('inttoptr')
        n = ty.n
        a = xs[0]
        b = xs[1] if len(xs) > 1 else None
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            if n == 1:
                return self.bool_op(op, a, b)
            if isinstance(a, PInt) or isinstance(b, PInt):
                return self.ptr_arith(st, op, a, b)
            if isinstance(a, Bits) or isinstance(b, Bits):
                if isinstance(a, Bits) and op == 'and' and b == (1 << (n - 1)) - 1:
                    return Bits(t.rabs(a.v), a.n)
                if isinstance(a, Bits) and op == 'xor' and b == (1 << (n - 1)):
                    return Bits(t.rneg(a.v), a.n)
                raise Unsupported('arithmetic on float bits')
            a = self.toint(a)
            b = self.toint(b)
            return self.int_op(st, op, a, b, n, I.x if op in ('add', 'sub', 'mul', 'shl') else None)
        if op == 'trunc':
            if n == 1:
                if isinstance(a, int):
                    return bool(a & 1)
                a = self.toint(a)
                if is_t(a) and a.op == 'ite' and isinstance(a.a[1], int) and isinstance(a.a[2], int):
                    return t.bite(a.a[0], bool(a.a[1] & 1), bool(a.a[2] & 1))
                lo, hi = t.rng(a, st.bounds)
                if lo is not None and lo >= 0 and hi is not None and hi <= 1:
                    return t.ieq(a, 1)
                return t.ieq(t.imod(a, 2), 1)
            if isinstance(a, PInt):
                raise Unsupported('trunc of pointer')
            return self.wrapn(st, self.toint(a), n)
        if op == 'zext':
            if aty[0].n == 1:
                if isinstance(a, bool):
                    return int(a)
                if isinstance(a, int):
                    return a
                return t.iite(a, 1, 0)
            return a
        if op == 'sext':
            if aty[0].n == 1:
                m = (1 << n) - 1
                if isinstance(a, bool):
                    return m if a else 0
                return t.iite(a, m, 0)
            s = self.signed(st, a, aty[0].n)
            if isinstance(s, int):
                return s % (1 << n)
            lo, hi = t.rng(s, st.bounds)
            if lo is not None and lo >= 0:
                return s
            return self.wrapn(st, s, n)
        raise Unsupported(f'instruction {op}')

    def toint(self, x):
        if isinstance(x, bool):
            return int(x)
        if is_t(x) and x.s == 'B':
            return t.iite(x, 1, 0)
        return x

    def bool_op(self, op, a, b):
        tb = lambda x: bool(x) if isinstance(x, int) else x
        a, b = tb(a), tb(b)
        if op in ('and', 'mul'):
            return t.band(a, b)
        if op == 'or':
            return t.bor(a, b)
        if op in ('xor', 'add', 'sub'):
            return t.bor(t.band(a, t.bnot(b)), t.band(t.bnot(a), b))
        raise Unsupported('i1 ' + op)

    def ptr_arith(self, st, op, a, b):
        if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
            return self.wrapn(st, self.pdiff(a.p, b.p), 64)
        if op in ('add', 'sub') and isinstance(a, PInt) and not isinstance(b, PInt):
            o = self.signed(st, b, 64)
            return PInt(self.padd(a.p, o if op == 'add' else t.ineg(o)))
        if op == 'add' and isinstance(b, PInt):
            return PInt(self.padd(b.p, self.signed(st, a, 64)))
        if op == 'and' and isinstance(a, PInt) and isinstance(b, int) and isinstance(a.p, Ptr) and isinstance(a.p.o, int):
            # alignment tests/rounding: regions are assumed 64-byte aligned
            if b < 64:
                return a.p.o & b
            if (b | 63) == (1 << 64) - 1:
                return PInt(Ptr(a.p.r, a.p.o & (b | ~((1 << 64) - 1))))
        if op == 'urem' and isinstance(a, PInt) and isinstance(b, int) and 64 % b == 0:
            return t.imod(a.p.o, b)
        raise Unsupported('pointer arithmetic ' + op)

    def pdiff(self, p, q):
        if isinstance(p, PIte):
            return t.iite(p.c, self.pdiff(p.a, q), self.pdiff(p.b, q))
        if isinstance(q, PIte):
            return t.iite(q.c, self.pdiff(p, q.a), self.pdiff(p, q.b))
        if isinstance(p, Ptr) and isinstance(q, Ptr) and p.r == q.r:
            return t.isub(p.o, q.o)
        raise Unsupported('difference of unrelated pointers')

    def int_op(self, st, op, a, b, n, fl):
        M = 1 << n
        if op == 'add':
            if isinstance(a, int) and isinstance(b, int):
                return (a + b) % M
            if fl and fl[0]:
                return t.iadd(a, b)
            # small negative constants
            if isinstance(b, int) and b >= M // 2:
                r = t.iadd(a, b - M)
            elif isinstance(a, int) and a >= M // 2:
                r = t.iadd(b, a - M)
            else:
                r = t.iadd(a, b)
            return self.wrapn(st, r, n)
        if op == 'sub':
            if isinstance(a, int) and isinstance(b, int):
                return (a - b) % M
            if fl and fl[0]:
                return t.isub(a, b)
            return self.wrapn(st, t.isub(a, b), n)
        if op == 'mul':
            if isinstance(a, int) and isinstance(b, int):
                return (a * b) % M
            if fl and fl[0]:
                return t.imul(a, b)
            if isinstance(b, int) and b >= M // 2:
                b = b - M
            return self.wrapn(st, t.imul(a, b), n)
        if op == 'shl':
            if isinstance(b, int):
                if isinstance(a, int):
                    return (a << b) % M
                r = t.imul(a, 1 << b)
                if fl and fl[0]:
                    return r
                return self.wrapn(st, r, n)
            if isinstance(a, int):
                # a << b with symbolic b: case split over small ranges
                lo, hi = t.rng(b, st.bounds)
                if lo is not None and hi is not None and hi - lo <= 64:
                    r = 0
                    for k in range(lo, min(hi, n - 1) + 1):
                        r = t.iite(t.ieq(b, k), (a << k) % M, r)
                    return r
            raise Unsupported('symbolic shl')
        if op == 'lshr':
            if isinstance(b, int):
                return t.idiv(a, 1 << b)
            raise Unsupported('symbolic lshr')
        if op == 'ashr':
            if isinstance(b, int):
                s = self.signed(st, a, n)
                return self.wrapn(st, t.idiv(s, 1 << b), n)
            raise Unsupported('symbolic ashr')
        if op in ('udiv', 'urem'):
            if isinstance(b, int):
                if b == 0:
                    self.oblige('division-by-zero', st, False)
                    raise Dead()
            else:
                self.oblige('division-by-zero', st, t.ile(1, b))
            return t.idiv(a, b) if op == 'udiv' else t.imod(a, b)
        if op in ('sdiv', 'srem'):
            x, y = self.signed(st, a, n), self.signed(st, b, n)
            if isinstance(x, int) and isinstance(y, int):
                if y == 0:
                    self.oblige('division-by-zero', st, False)
                    raise Dead()
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return (q if op == 'sdiv' else x - q * y) % M
            self.oblige('division-by-zero', st, t.ne(y, 0))
            if isinstance(y, int) and y > 0:
                # exact division (pointer differences)
                c, d = t._lin(x)
                if c % y == 0 and all(k % y == 0 for k in d.values()):
                    return self.wrapn(st, t.idiv(x, y), n) if op == 'sdiv' else 0
            if self.ent(st, t.band(t.ile(0, x), t.ile(1, y))):
                return t.idiv(x, y) if op == 'sdiv' else t.imod(x, y)
            raise Unsupported('signed division')
        if isinstance(a, int) and isinstance(b, int):
            return {'and': a & b, 'or': a | b, 'xor': a ^ b}[op]
        if isinstance(a, int):
            a, b = b, a
        if op == 'and' and isinstance(b, int):
            if b == 0:
                return 0
            if b == M - 1:
                return a
            if (b & (b + 1)) == 0:
                return t.imod(a, b + 1)
            # high mask: a - a mod 2^k
            low = (~b) % M
            if (low & (low + 1)) == 0:
                return t.isub(a, t.imod(a, low + 1))
        if op == 'or' and isinstance(b, int) and b == 0:
            return a
        if op == 'xor' and isinstance(b, int):
            if b == 0:
                return a
            if b == M - 1:
                return t.isub(M - 1, a)
            if b == 1:
                l, h = t.rng(a, st.bounds)
                if l is not None and l >= 0 and h is not None and h <= 1:
                    return t.isub(1, a)
        # values that are ite of constants / small ranges
        for x, y in ((a, b), (b, a)):
            if is_t(x) and x.op == 'ite':
                return t.iite(x.a[0], self.int_op(st, op, x.a[1], y, n, fl), self.int_op(st, op, x.a[2], y, n, fl))
        if op == 'or' and is_t(a) and is_t(b):
            # disjoint bits: a multiple of 2^k, b < 2^k
            for x, y in ((a, b), (b, a)):
                c, d = t._lin(x)
                from math import gcd
                g = abs(c)
                for k in d.values():
                    g = gcd(g, abs(k))
                if g and (g & -g) > 1:
                    l, h = t.rng(y, st.bounds)
                    if l is not None and l >= 0 and h is not None and h < (g & -g):
                        return t.iadd(x, y)
        raise Unsupported('bit operation ' + op)

    def icmp(self, st, p, a, b, ty):
        if a is UV or b is UV:
            return UV
        if ty.k == 'p' or isinstance(a, (Ptr, PIte, FRef, PInt)) or isinstance(b, (Ptr, PIte, FRef, PInt)):
            return self.pcmp(st, p, a, b)
        if ty.k == 'i' and ty.n == 1:
            tb = lambda x: bool(x) if isinstance(x, int) else x
            a, b = tb(a), tb(b)
            e = t.eq(a, b)
            if p == 'eq':
                return e
            if p == 'ne':
                return t.bnot(e)
            a, b = self.toint(a), self.toint(b)
        if isinstance(a, Bits) or isinstance(b, Bits):
            raise Unsupported('compare float bits')
        a, b = self.toint(a), self.toint(b)
        if p == 'eq':
            return t.ieq(a, b)
        if p == 'ne':
            return t.bnot(t.ieq(a, b))
        if p[0] == 's':
            a, b = self.signed(st, a, ty.n), self.signed(st, b, ty.n)
        q = p[1:]
        if q == 'lt':
            return t.lt(a, b)
        if q == 'le':
            return t.le(a, b)
        if q == 'gt':
            return t.lt(b, a)
        return t.le(b, a)

    def pcmp(self, st, p, a, b):
        if isinstance(a, PInt):
            a = a.p
        if isinstance(b, PInt):
            b = b.p
        if isinstance(a, int):
            a = NULL if a == 0 else Ptr(None, a)
        if isinstance(b, int):
            b = NULL if b == 0 else Ptr(None, b)
        if isinstance(a, PIte):
            return t.bite(a.c, self.pcmp(st, p, a.a, b), self.pcmp(st, p, a.b, b))
        if isinstance(b, PIte):
            return t.bite(b.c, self.pcmp(st, p, a, b.a), self.pcmp(st, p, a, b.b))
        if isinstance(a, FRef) or isinstance(b, FRef):
            e = isinstance(a, FRef) and isinstance(b, FRef) and a.name == b.name
            return e if p == 'eq' else not e
        if a.r == b.r:
            if p == 'eq':
                return t.ieq(a.o, b.o)
            if p == 'ne':
                return t.bnot(t.ieq(a.o, b.o))
            q = p[1:]
            return {'lt': t.lt, 'le': t.le}[q](a.o, b.o) if q in ('lt', 'le') else {'gt': t.lt, 'ge': t.le}[q](b.o, a.o)
        if p == 'eq':
            return False
        if p == 'ne':
            return True
        # ordering of unrelated objects (std::less on pointers, overlap tests): by region id
        ra = -1 if a.r is None else a.r
        rb = -1 if b.r is None else b.r
        return {'lt': ra < rb, 'le': ra < rb, 'gt': ra > rb, 'ge': ra > rb}[p[1:]]

    # ------------------------------------------------------------- calls
    def call(self, st, I):
        x = I.x[0] if I.op == 'invoke' else I.x
        if isinstance(x, tuple):
            return ('val', UV)          # inline asm: only used as barriers
        if isinstance(x, GRef):
            name = self.m.alias.get(x.name, x.name)
        else:
            v = self.val(st, x)
            if isinstance(v, PIte):
                raise Unsupported('call through conditional pointer')
            if not isinstance(v, FRef):
                raise Unsupported(f'indirect call through {v!r}')
            name = v.name
        for g in IGN:
            if name.startswith(g):
                return ('val', UV)
        args = [self.val(st, a) for a in I.a]
        return self.call_named(st, name, args, I)

    def call_named(self, st, name, args, I=None):
        c = self.contracts.get(name)
        if c is not None:
            r = c(self, st, args)
            if r is None:
                return None
            if isinstance(r, list):
                return ('list', r)
            return ('val', r)
        r = self.builtin(st, name, args, I)
        if r is not NotImplemented:
            return r
        return ('list', self.call_fn(st, name, args))

    def builtin(self, st, name, args, I):
        if name == 'vp_abort' or name in ('abort', 'exit', '__assert_fail', '_ZSt9terminatev') or name.startswith('_ZSt2') and '__throw' in name or name in ('__cxa_throw', 'llvm.trap'):
            if self.check_abort:
                self.oblige('abort', st, False, f'{self.frame[-1]} calls {name}')
            return None
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove') or name in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2])
            return ('val', args[0])
        if name.startswith('llvm.memset') or name == 'memset':
            self.memset(st, args[0], args[1], args[2])
            return ('val', args[0])
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
            return ('val', self.alloc(st, args[0]))
        if name == 'calloc':
            p = self.alloc(st, t.imul(args[0], args[1]))
            self.memset(st, p, 0, t.imul(args[0], args[1]))
            return ('val', p)
        if name in ('aligned_alloc',):
            return ('val', self.alloc(st, args[1]))
        if name == 'posix_memalign':
            p = self.alloc(st, args[2])
            self.store_(st, args[0], p, ty_ptr)
            return ('val', 0)
        if name.startswith('_ZdlPv') or name.startswith('_ZdaPv') or name == 'free':
            p = args[0]
            if isinstance(p, Ptr) and p.r is not None:
                reg = st.wr(p.r)
                reg.freed = True
            return ('val', UV)
        f1 = {'llvm.fabs.f64': 'abs', 'llvm.fabs.f32': 'abs', 'fabs': 'abs', 'fabsf': 'abs', 'sqrt': 'sqrt',
              'sqrtf': 'sqrt', 'llvm.sqrt.f64': 'sqrt', 'llvm.sqrt.f32': 'sqrt', 'llvm.fabs.f80': 'abs',
              'llvm.sqrt.f80': 'sqrt', 'sqrtl': 'sqrt'}.get(name)
        if f1 == 'abs':
            return ('val', UV if args[0] is UV else t.rabs(args[0]))
        if f1 == 'sqrt':
            if args[0] is UV:
                return ('val', UV)
            if self.check_div:
                self.oblige('sqrt-domain', st, t.rle(Fraction(0), args[0]))
            return ('val', t.rsqrt(args[0]))
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fma.'):
            return ('val', t.radd(t.rmul(args[0], args[1]), args[2]))
        if name.startswith('llvm.minnum') or name in ('fmin', 'fminf'):
            return ('val', t.rmin(args[0], args[1]))
        if name.startswith('llvm.maxnum') or name in ('fmax', 'fmaxf'):
            return ('val', t.rmax(args[0], args[1]))
        if name.startswith('llvm.umin') or name.startswith('llvm.umax'):
            f = t.imin if 'umin' in name else t.imax
            return ('val', f(args[0], args[1]))
        if name.startswith('llvm.smin') or name.startswith('llvm.smax'):
            n = int(name.split('.i')[1])
            a, b = self.signed(st, args[0], n), self.signed(st, args[1], n)
            f = t.imin if 'smin' in name else t.imax
            return ('val', self.wrapn(st, f(a, b), n))
        if name.startswith('llvm.abs.i'):
            n = int(name.split('.i')[1])
            a = self.signed(st, args[0], n)
            return ('val', t.iite(t.ile(0, a), a, t.ineg(a)))
        if name.startswith('llvm.ctlz.i'):
            n = int(name.split('.i')[1])
            if isinstance(args[0], int):
                return ('val', n - args[0].bit_length())
            raise Unsupported('symbolic ctlz')
        if name.startswith('llvm.expect'):
            return ('val', args[0])
        if name.startswith('llvm.is.constant'):
            return ('val', False)
        if name.startswith('llvm.objectsize'):
            return ('val', (1 << 64) - 1)
        if name.startswith('llvm.umul.with.overflow'):
            n = 64
            p = t.imul(args[0], args[1])
            if isinstance(p, int):
                return ('val', Vec([p % (1 << n), p >= (1 << n)]))
            ov = t.bnot(t.ile(p, (1 << n) - 1))
            q = self.quick(st, ov)
            if q is None and self.ent(st, t.bnot(ov)):
                q = False
            return ('val', Vec([p if q is False else self.wrapn(st, p, n), ov if q is None else q]))
        m = {'exp': 'exp', 'llvm.exp.f64': 'exp', 'llvm.exp.f32': 'exp', 'expf': 'exp', 'log': 'log', 'logf': 'log',
             'llvm.log.f64': 'log', 'llvm.log.f32': 'log', 'sin': 'sin', 'cos': 'cos', 'sinf': 'sin', 'cosf': 'cos',
             'tan': 'tan', 'llvm.sin.f64': 'sin', 'llvm.cos.f64': 'cos', 'atan2': 'atan2', 'acos': 'acos', 'erf': 'erf'}.get(name)
        if m:
            if any(a is UV for a in args):
                return ('val', UV)
            if m == 'log' and self.check_div:
                self.oblige('log-domain', st, t.rlt(Fraction(0), args[0]))
            if m in ('exp', 'log'):
                return ('val', (t.rexp if m == 'exp' else t.rlog)(args[0]))
            return ('val', t.rfun(m, *args))
        if name in ('pow', 'powf', 'llvm.pow.f64', 'llvm.pow.f32', 'llvm.powi.f64.i32'):
            e = args[1]
            if name.startswith('llvm.powi'):
                e = Fraction(self.signed(st, e, 32))
            if not is_t(e) and e.denominator == 1 and abs(e) < 64:
                r = Fraction(1)
                for _ in range(abs(int(e))):
                    r = t.rmul(r, args[0])
                if e < 0:
                    if self.check_div:
                        self.oblige('division-by-zero', st, t.bnot(t.eq(r, 0)))
                    r = t.rdiv(Fraction(1), r)
                return ('val', r)
            if not is_t(e) and e.denominator == 2 and 0 < e < 64:
                if self.check_div:
                    self.oblige('pow-domain', st, t.rle(Fraction(0), args[0]))
                r = t.rsqrt(args[0])
                for _ in range(int(e)):
                    r = t.rmul(r, args[0])
                return ('val', r)
            if self.check_div:
                self.oblige('pow-domain', st, t.rlt(Fraction(0), args[0]))
            return ('val', t.rpow(*args))
        if name in ('floor', 'llvm.floor.f64', 'ceil', 'llvm.ceil.f64', 'floorf'):
            import math
            k = 'floor' if 'floor' in name else 'ceil'
            if not is_t(args[0]):
                return ('val', Fraction(getattr(math, k)(args[0])))
            return ('val', t.rfun(k, args[0]))
        return NotImplemented

    def alloc(self, st, n):
        self.acount = getattr(self, 'acount', 0) + 1
        if is_t(n):
            # symbolic size: homogeneous array, element kind decided by the unit
            k = self.alloc_kind(st, n) or self.lazy.get(self.acount)
            if k is None:
                # element type unknown until the first access: the execution is restarted then
                reg = cell_region(f'heap{self.acount}', None, heap=True)
                reg.kind = 'lazy'
                reg.n = self.acount
                return Ptr(self.new_region(st, reg), 0)
            kind, es, lo, hi = k
            rid = self.new_region(st, arr_region(t.fresh_name('heap'), t.idiv(n, es), es, kind, None, lo, hi))
            return Ptr(rid, 0)
        rid = self.new_region(st, cell_region(f'heap{self.acount}', n, heap=True))
        return Ptr(rid, 0)

    def alloc_kind(self, st, n):
        return None

    lazy = {}

    def settle(self, reg, ty):
        if ty.k == 'f':
            k = ('R', ty.size, None, None)
        elif ty.k == 'i':
            k = ('I', ty.size, 0, (1 << (8 * ty.size)) - 1)
        else:
            raise Unsupported('array of pointers of symbolic size')
        self.lazy[reg.n] = k
        raise Restart()


class Restart(Exception):
    """the element type of an allocation became known: execute again"""


class Dead(Exception):
    """current path ended (obligation recorded)"""


class _Ty:
    pass


def _mkty(k, n, size):
    from .llvmc import Ty
    x = Ty()
    x.k, x.n, x.size, x.el, x.els, x.offs = k, n, size, None, None, None
    return x


ty_f64 = _mkty('f', 64, 8)
ty_f32 = _mkty('f', 32, 4)
ty_ptr = _mkty('p', None, 8)
_ints = {}


def mk_int(n):
    if n not in _ints:
        _ints[n] = _mkty('i', n, max(1, n // 8))
    return _ints[n]


class View:
    """state at a loop header as seen by candidate invariants"""

    def __init__(self, lc, st, entry):
        self.lc = lc
        self.st = st
        self.entry = entry

    def phi(self, d):
        v = self.st.env[d]
        return v

    def arr(self, rid, fo=0):
        reg = self.st.mem[rid]
        a, kind, lo, hi, esz = reg.fields[fo]
        return t.Arr(a, reg.n, lo, hi)

    def cell(self, rid, off):
        return self.st.mem[rid].cells[off][0]


class LoopCtx:
    def __init__(self, ex, f, hdr, phis, st0, init, modified, tag):
        self.ex = ex
        self.f = f
        self.hdr = hdr
        self.phis = phis
        self.st0 = st0
        self.init = init
        self.modified = modified
        self.tag = tag

    def view(self, st, entry):
        return View(self, st, entry)

    def int_phis(self):
        return [p for p in self.phis if p.ty.k == 'i' and p.ty.n > 1]

    def ivs(self):
        """integer phis stepped by a constant on every back edge"""
        out = []
        body = self.f.loops[self.hdr]
        for p in self.int_phis():
            ok = False
            for pred, v in p.a.items():
                if pred not in body:
                    continue
                d = self.definition(v)
                ok = d is not None and d.op in ('add', 'sub') and any(isinstance(a, Reg) and a.i == p.d for a in d.a) and any(
                    isinstance(a, Const) for a in d.a)
                if not ok:
                    break
            if ok:
                out.append(p)
        return out

    def accs(self):
        iv = set(p.d for p in self.ivs())
        return [p for p in self.int_phis() if p.d not in iv]

    def definition(self, v):
        if not isinstance(v, Reg):
            return None
        for b in self.f.blocks:
            for I in b.ins:
                if I.d == v.i and I.op not in ('store', 'br', 'ret', 'switch'):
                    return I
        return None

    def real_phis(self):
        return [p for p in self.phis if p.ty.k == 'f']

    def reals(self):
        """floating-point loop state: phis and modified cells, as (key, getter) pairs"""
        out = [(p.d, lambda v, d=p.d: v.phi(d)) for p in self.phis if p.ty.k == 'f']
        for rid in self.modified:
            reg = self.st0.mem[rid]
            if reg.kind == 'arr':
                continue
            for off, (x, sz) in list(reg.cells.items()):
                if isinstance(x, Fraction) or is_t(x) and x.s == 'R':
                    out.append(((rid, off), lambda v, rid=rid, off=off: v.cell(rid, off)))
        return out

    def bool_phis(self):
        return [p for p in self.phis if p.ty.k == 'i' and p.ty.n == 1]

    def outer_ivs(self):
        """integer phis of the enclosing invariant-cut loops (their current symbolic value)"""
        out = []
        for (f, hdr, s, tag) in self.ex.loopstack:
            for p in f.blocks[hdr].phis:
                v = s.env.get(p.d)
                if p.ty.k == 'i' and p.ty.n > 1 and is_t(v):
                    out.append(v)
        return out

    def bounds_terms(self):
        """terms the loop's exit tests compare against (evaluated at entry)"""
        out = list(self.inv_terms)
        f = self.f
        body = f.loops[self.hdr]
        for b in body:
            for I in f.blocks[b].ins:
                if I.op == 'icmp':
                    for a in I.a:
                        if isinstance(a, Reg):
                            if a.i in self.st0.env and a.i not in [p.d for p in self.phis]:
                                v = self.st0.env[a.i]
                                if (is_t(v) and v.s == 'I') or (isinstance(v, int) and not isinstance(v, bool)):
                                    if v not in out:
                                        out.append(v)
                        elif isinstance(a, Const) and isinstance(a.v, int) and I.aty[0].k == 'i' and a.v not in out:
                            out.append(a.v)
        return out

    def generic(self):
        ivs = self.ivs()
        bts = self.bounds_terms()
        if not ivs:
            ivs = self.int_phis()
            bts = [b for b in bts if not (is_t(b) and t.atoms(b, lambda u: u.op in ('isel', 'sel', 'ite', 'imod', 'iite')))]
            bts = [] if len(ivs) > 1 else bts
        for p in ivs:
            i0 = self.init[p.d]
            if not (isinstance(i0, int) or is_t(i0)):
                continue
            yield (f'{p.d}>=init', lambda v, p=p, i0=i0: t.ile(i0, v.phi(p.d)))
            for b in bts:
                yield (f'{p.d}<=bound', lambda v, p=p, b=b: t.ile(v.phi(p.d), b))
                if is_t(i0):
                    yield (f'{p.d}=init or <=bound', lambda v, p=p, b=b, i0=i0: t.bor(t.ieq(v.phi(p.d), i0), t.ile(v.phi(p.d), b)))
            for q in ivs:
                j0 = self.init[q.d]
                if q.d > p.d and (isinstance(j0, int) or is_t(j0)):
                    yield (f'{p.d}-{q.d}', lambda v, p=p, q=q, i0=i0, j0=j0: t.ieq(t.isub(v.phi(p.d), i0), t.isub(v.phi(q.d), j0)))
