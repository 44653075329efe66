"""A unit: one function (or flat wrapper around it) of /repo under contract.

A unit names the wrapper function, its parameters, the precondition, the postconditions and
everything the verifier needs to discharge them.  `verify` runs symbolic execution on the IR
that clang produced from /repo's current sources and discharges every obligation; a failed one
is replayed natively (same sources compiled to machine code)."""
import ctypes
import json
import os
import pickle
import random
import select
import signal
import time
import traceback
from fractions import Fraction

from . import terms as t
from .terms import is_t
from . import exec as X
from . import build
from . import llvmc
from .solve import Prover, z3num

TY = {'f64': ('R', 8, ctypes.c_double), 'f32': ('R', 4, ctypes.c_float), 'u64': ('I', 8, ctypes.c_uint64),
      'i64': ('I', 8, ctypes.c_int64), 'u32': ('I', 4, ctypes.c_uint32), 'i32': ('I', 4, ctypes.c_int32),
      'u16': ('I', 2, ctypes.c_uint16), 'u8': ('I', 1, ctypes.c_uint8), 'bool': ('I', 1, ctypes.c_uint8),
      'i16': ('I', 2, ctypes.c_int16)}


def trange(ty):
    if ty == 'bool':
        return 0, 1
    if ty[0] in 'ui':
        n = int(ty[1:])
        return (0, (1 << n) - 1)
    return None, None


class S:
    """scalar parameter; val: fixed value.  Signed types are restricted to non-negative values unless signed=True"""

    def __init__(self, name, ty, lo=None, hi=None, val=None):
        self.name, self.ty, self.lo, self.hi, self.val = name, ty, lo, hi, val


class A:
    """array parameter.  ext: int (every element tracked) or a function ctx -> term (symbolic extent).
    mode: 'in' (frame: must not be written), 'out' (arbitrary initial contents), 'io'"""

    def __init__(self, name, ty, ext, mode='in', lo=None, hi=None, vals=None, garbage=None):
        self.name, self.ty, self.ext, self.mode, self.lo, self.hi, self.vals = name, ty, ext, mode, lo, hi, vals
        self.garbage = garbage


class NS:
    pass


class Ctx:
    def __init__(self):
        self.i = NS()
        self.o = NS()
        self.ret = None
        self.sym = True


def sx(v, bits):
    """two's complement value -> signed mathematical value (contract helper)"""
    return t.iite(t.ile(v, (1 << (bits - 1)) - 1), v, t.isub(v, 1 << bits)) if is_t(v) else (
        v - (1 << bits) if v >> (bits - 1) else v)


class Unit:
    def __init__(self, name, src, fn, params, ensures=None, requires=None, ret=None, cfg=None, inv=False, cands=None,
                 contracts=None, sample=None, tol=None, native=True, unwind=0, bounded=None, opts=None, axioms=None,
                 funs=None, gfuns=None, timeout=500, runs=None, alloc=None, rlimit=None, note='', anchors=(), tier='quick',
                 allow_abort=False, prover=None, post=None, small=None, lits=True, z3_timeout=None, cover=True,
                 post_facts=None, inv_obs=None, lemmas=None, chain=False, cuts=None):
        self.cuts = cuts            # c -> candidate terms for the case distinctions in the postconditions
        self.lemmas = lemmas        # c -> [(label, formula)]: proved from the precondition (and the lemmas before), then assumed
        self.chain = chain          # a proved postcondition is a hypothesis of the postconditions after it
        self.name, self.src, self.fn, self.params = name, src, fn, params
        self.ensures = ensures or (lambda c: [])
        self.requires = requires or (lambda c: [])
        self.ret = ret
        self.cfg = cfg or {}
        self.inv, self.cands, self.contracts = inv, cands, contracts or {}
        self.sample = sample
        self.tol = tol
        self.native = native
        self.unwind = unwind
        self.bounded = bounded
        self.opts = opts or {}
        self.axioms = axioms
        self.funs = funs or {}
        self.gfuns = gfuns
        self.timeout = timeout
        self.runs = runs
        self.alloc = alloc
        self.rlimit = rlimit
        self.note = note
        self.anchors = anchors
        self.tier = tier
        self.allow_abort = allow_abort
        self.small = small          # function(rng, unit) -> dict: overrides of scalars for sampling
        self.z3_timeout = z3_timeout
        self.cover = cover
        self.post_facts = post_facts

    # ---------------------------------------------------------------- keys
    def key(self):
        import hashlib
        return os.path.basename(self.src).replace('.', '_') + '_' + hashlib.sha1(
            repr(sorted((k, repr(v)) for k, v in self.cfg.items())).encode()).hexdigest()[:10]

    def path(self):
        return os.path.join(build.VERIF, 'contracts', self.src)

    # ---------------------------------------------------------------- symbolic inputs
    def symbols(self):
        """input context over fresh, deterministic variables"""
        c = Ctx()
        ext = {}
        for p in self.params:
            kind, sz, _ = TY[p.ty]
            lo, hi = trange(p.ty)
            if isinstance(p, S):
                if p.val is not None:
                    v = p.val if kind == 'I' else Fraction(p.val)
                elif kind == 'I':
                    v = t.ivar('in.' + p.name, lo if p.lo is None else p.lo, hi if p.hi is None else p.hi)
                else:
                    v = t.rvar('in.' + p.name)
                setattr(c.i, p.name, v)
        for p in self.params:
            kind, sz, _ = TY[p.ty]
            lo, hi = trange(p.ty)
            if isinstance(p, A):
                lo2, hi2 = (lo if p.lo is None else p.lo), (hi if p.hi is None else p.hi)
                e = p.ext(c) if callable(p.ext) else p.ext
                ext[p.name] = e
                if isinstance(e, int):
                    if p.vals is not None:
                        vs = [(x if kind == 'I' else Fraction(x)) if x is not None else t.ivar(f'in.{p.name}[{k}]', lo2, hi2) if kind == 'I' else t.rvar(f'in.{p.name}[{k}]')
                              for k, x in enumerate(p.vals)]
                    elif kind == 'I':
                        vs = [t.ivar(f'in.{p.name}[{k}]', lo2, hi2) for k in range(e)]
                    else:
                        vs = [t.rvar(f'in.{p.name}[{k}]') for k in range(e)]
                    setattr(c.i, p.name, vs)
                else:
                    setattr(c.i, p.name, t.Arr(t.avar('in.' + p.name, kind), e, lo2, hi2))
        self.ext = ext
        return c

    def out_symbols(self, c):
        """output context over variables (used to evaluate postconditions on native results)"""
        for p in self.params:
            if isinstance(p, A):
                kind, sz, _ = TY[p.ty]
                lo, hi = trange(p.ty)
                e = self.ext[p.name]
                if p.mode == 'in':
                    setattr(c.o, p.name, getattr(c.i, p.name))
                elif isinstance(e, int):
                    mk = (lambda n: t.ivar(n, lo, hi)) if kind == 'I' else t.rvar
                    setattr(c.o, p.name, [mk(f'out.{p.name}[{k}]') for k in range(e)])
                else:
                    setattr(c.o, p.name, t.Arr(t.avar('out.' + p.name, kind), e, lo, hi))
        if self.ret:
            kind, sz, _ = TY[self.ret]
            c.ret = t.ivar('out.ret', *trange(self.ret)) if kind == 'I' else t.rvar('out.ret')
        return c

    # ---------------------------------------------------------------- verification
    def run(self, seed=1, tier='quick', out=None):
        t0 = time.time()
        rec = dict(unit=self.name, fn=self.fn, obligations=0, discharged=0, failed=[], backends={}, solver_s=0.0,
                   functions=[], loops_invariant=0, loops_unrolled=0, bounded=self.bounded, assumed=[], wall_s=0.0,
                   native_runs=0, cover=None, instructions=0, invariants=[])
        fails = []
        models = []

        def alarm(*_):
            raise TimeoutError('unit time limit')
        signal.signal(signal.SIGALRM, alarm)

        def native(n, budget):
            """executes the real code on inputs that satisfy the precondition"""
            if not self.native:
                return None
            signal.alarm(240)
            try:
                return self._native(models, seed, n, rec, budget)
            except build.BuildError as e:
                fails.append(('build', str(e), None))
            except TimeoutError:
                pass
            except Exception:
                if os.environ.get('VP_DEBUG'):
                    traceback.print_exc()
                rec['native_error'] = traceback.format_exc()[-1500:]
            finally:
                signal.alarm(0)
        # a failing input known beforehand shortens the proof attempt (one failed obligation is enough)
        wit = native(self.runs or 60, 20)
        self.maxfail = 1 if wit else 6
        signal.alarm(int(min(self.timeout, 150) if wit else self.timeout))
        try:
            self._symbolic(rec, fails, models)
        except TimeoutError as e:
            fails.append(('time limit', str(e), None))
        except (X.Unsupported, X.Budget, X.SymbolicLoop) as e:
            fails.append(('verifier', f'{type(e).__name__}: {e}', None))
        except build.BuildError as e:
            fails.append(('build', str(e), None))
        except Exception as e:
            fails.append(('verifier', 'internal: ' + traceback.format_exc()[-1500:], None))
        finally:
            signal.alarm(0)
        if os.environ.get('VP_DEBUG') and fails:
            for f in fails:
                print('   FAIL', self.name, f[0], str(f[1])[:600])
        # native replay of models and a search when something is undischarged
        if fails and not wit:
            wit = native(4000, 60)
        if self.cover and rec['cover'] is None and not fails:
            fails.append(('vacuity', 'no input satisfying the precondition was found', None))
        rec['failed'] = [dict(obligation=f[0], detail=str(f[1])[:3000]) for f in fails]
        rec['witness'] = wit
        rec['wall_s'] = round(time.time() - t0, 2)
        return rec

    def _symbolic(self, rec, fails, models):
        lazy = {}
        for _ in range(50):
            try:
                return self._symbolic1(rec, fails, models, lazy)
            except X.Restart:
                rec['assumed'] = []
        raise X.Unsupported('element types of allocations do not settle')

    def _symbolic1(self, rec, fails, models, lazy):
        bc = build.ir(self.path(), self.cfg, self.key())
        mod = llvmc.Module(bc)
        c = self.symbols()
        ax = self.axioms(c) if self.axioms else []
        pv = Prover(axioms=ax)
        if self.rlimit:
            pv.rlimit = self.rlimit
        if self.z3_timeout:
            pv.timeout = self.z3_timeout
        import re
        cons = {}
        for pat, fn in self.contracts.items():
            hit = [n for n in mod.fnraw if re.search(pat, n)]
            for n in hit:
                cons[n] = fn
            rec['assumed'] += [f'contract on {n}' for n in hit]
        ex = X.Exec(mod, pv, contracts=cons, invariants=self.inv, cands=(lambda lc: self.cands(c, lc)) if self.cands else None,
                    unwind=self.unwind, check_abort=not self.allow_abort, **{k: v for k, v in self.opts.items() if k != 'inv_timeout_c'})
        if 'inv_timeout_c' in self.opts:
            ex.inv_timeout_c = self.opts['inv_timeout_c']
        ex.lazy = lazy
        if self.alloc:
            ex.alloc_kind = lambda st, n: self.alloc(c, st, n)
        st = X.State()
        # globals with dynamic initialisers are not modelled: only constant initialisers are
        args = []
        rids = {}
        for p in self.params:
            kind, sz, _ = TY[p.ty]
            v = getattr(c.i, p.name)
            if isinstance(p, S):
                if p.ty == 'bool' and False:
                    v = t.eq(v, 1)
                args.append(v)
                continue
            e = self.ext[p.name]
            if isinstance(e, int):
                r = X.cell_region(p.name, e * sz)
                for k in range(e):
                    r.cells[k * sz] = (v[k], sz)
            else:
                r = X.arr_region(p.name, e, sz, kind, v.term, v.lo, v.hi)
            r.ro = p.mode == 'in'
            rid = ex.new_region(st, r)
            rids[p.name] = rid
            args.append(X.Ptr(rid, 0))
        ex.rids = rids
        self.rids = rids
        c.ex = ex
        fnm = self.fn
        # i1 parameters
        f = mod.fn(fnm)
        if f is None:
            raise X.Unsupported(f'{fnm} is not in the module')
        for k, (pp, ty) in enumerate(zip(f.params, f.ptys)):
            if ty.k == 'i' and ty.n == 1 and not isinstance(args[k], bool):
                args[k] = t.eq(args[k], 1) if is_t(args[k]) else bool(args[k])
        for q in self.requires(c):
            ex.assume(st, q)
        for lab, g in (self.lemmas(c) if self.lemmas else []):
            ex.obs.append(X.Ob('lemma ' + lab, list(st.pc), g, self.fn))
            ex.assume(st, g)
        pre = list(st.pc)
        # vacuity of the precondition
        try:
            m = pv.model(pre, timeout=4000) if pre else True
        except Exception:
            m = None
        if m:
            rec['cover'] = 'solver model of the precondition'
            if not pre:
                rec['cover'] = 'precondition is trivially true'
        outs = ex.call_fn(st, fnm, args)
        if not outs:
            fails.append(('vacuity', 'no path returns', None))
        obs = ex.obs
        for s, v in outs:
            if any(x is False for x in s.pc):
                continue
            co = Ctx()
            co.i = c.i
            co.ex = ex
            for p in self.params:
                if isinstance(p, S):
                    continue
                kind, sz, _ = TY[p.ty]
                reg = s.mem[rids[p.name]]
                e = self.ext[p.name]
                if isinstance(e, int):
                    vs = []
                    for k in range(e):
                        cell = reg.cells.get(k * sz)
                        if cell is None or cell[1] != sz:
                            ty = {('R', 8): X.ty_f64, ('R', 4): X.ty_f32}.get((kind, sz)) or X.mk_int(8 * sz)
                            x = ex.load_cell(s, rids[p.name], k * sz, ty)
                        else:
                            x = cell[0]
                        vs.append(self.asval(x, kind))
                    setattr(co.o, p.name, vs)
                else:
                    a, kk, lo, hi, es = reg.fields[0]
                    setattr(co.o, p.name, t.Arr(a, e, *trange(p.ty)))
            co.ret = self.asval(v, TY[self.ret][0]) if self.ret else None
            facts = self.post_facts(co) if self.post_facts else []
            for lab, g in self.ensures(co):
                obs.append(X.Ob('ensures ' + lab, list(s.pc) + facts, g, self.fn))
                if self.chain:
                    facts = facts + [g]
        rec['functions'] = sorted(ex.functions)
        rec['instructions'] = ex.steps
        rec['loops_unrolled'] = ex.loops_unrolled
        rec['loops_invariant'] = len(ex.loops_inv)
        rec['invariants'] = [(a, len(n)) for a, _, n, _ in ex.loops_inv]
        triv = getattr(ex, 'trivial', 0)
        invo = getattr(ex, 'inv_obs', 0)
        rec['obligations'] += triv + invo
        rec['discharged'] += triv + invo
        by = rec['backends']
        if triv:
            by['interval'] = by.get('interval', 0) + triv
        if invo:
            by['invariant (z3)'] = by.get('invariant (z3)', 0) + invo
        seen = {}
        nfail, tfail = 0, 0
        for ob in obs:
            rec['obligations'] += 1
            if ob.goal is True:
                rec['discharged'] += 1
                by['syntactic'] = by.get('syntactic', 0) + 1
                continue
            if nfail >= self.maxfail or tfail > 150:
                continue
            r = self.cut_goal(pv, c, ob) if self.cuts and ob.kind.startswith('ensures') else None
            t0 = time.time()
            r = r or pv.prove(ob.hyps, ob.goal, need_model=True, rlimit=self.rlimit)
            if os.environ.get('VP_TIME') and time.time() - t0 > 2:
                print(f'TIME {time.time() - t0:.1f} {r.ok} {ob.kind} @ {ob.where}', flush=True)
            if r.ok is True:
                rec['discharged'] += 1
                by[r.how] = by.get(r.how, 0) + 1
            else:
                nfail += 1
                tfail += time.time() - t0
                lab = f'{ob.kind} @ {ob.where}' if not ob.kind.startswith('ensures') else ob.kind
                fails.append((lab, ('refuted: ' if r.ok is False else f'not discharged ({r.why}): ') + t.show(ob.goal, 7)[:1500], None))
                if r.ok is False and r.model:
                    inp = self.model_inputs(r.model, c)
                    if inp is not None:
                        models.append((lab, inp))
        rec['solver_s'] = round(pv.stats.time, 2)
        if rec['obligations'] == 0:
            fails.append(('vacuity', 'no obligations were generated', None))

    def cut_goal(self, pv, c, ob):
        """replace case distinctions at the top of the goal by candidate terms they are proved equal to"""
        if not is_t(ob.goal):
            return None
        tops, seen = [], set()

        def walk(u):
            if not is_t(u) or u.i in seen:
                return
            seen.add(u.i)
            if u.op == 'ite' and u.s == 'R':
                tops.append(u)
                return
            for k in t.children(u):
                walk(k)
        walk(ob.goal)
        m = {}
        for x in tops[:12]:
            for e in self.cuts(c):
                if e is not x and all(pv.prove(ob.hyps, g, timeout=20000, rlimit=200_000_000).ok for g in (x <= e, x >= e)):
                    m[x] = e
                    break
        if not m:
            return None
        g = t.subst(ob.goal, m)
        r = pv.prove(ob.hyps, g)
        if r.ok:
            r.how = 'z3 (cuts)'
        return r if r.ok else None

    def asval(self, x, kind):
        if x is X.UV:
            return t.rvar(t.fresh_name('uninit')) if kind == 'R' else t.ivar(t.fresh_name('uninit'))
        if isinstance(x, X.Bits):
            return x.v
        if isinstance(x, bool):
            return int(x)
        if is_t(x) and x.s == 'B':
            return t.iite(x, 1, 0)
        if kind == 'R' and isinstance(x, int):
            if x == 0:
                return Fraction(0)
            import struct
            return Fraction(struct.unpack('<d', struct.pack('<Q', x))[0])
        return x

    # ---------------------------------------------------------------- models -> inputs
    def model_inputs(self, model, c):
        m, lo = model
        try:
            inp = {}
            for p in self.params:
                v = getattr(c.i, p.name)
                if isinstance(p, S):
                    inp[p.name] = v if not is_t(v) else z3num(m.eval(lo(v), model_completion=True))
            for p in self.params:
                if isinstance(p, A):
                    v = getattr(c.i, p.name)
                    e = self.ext[p.name]
                    if isinstance(e, int):
                        inp[p.name] = [x if not is_t(x) else z3num(m.eval(lo(x), model_completion=True)) for x in v]
                    else:
                        n = z3num(m.eval(lo(e), model_completion=True)) if is_t(e) else e
                        if n > 20000:
                            return None
                        inp[p.name] = [z3num(m.eval(lo(t.sel(v.term, k)), model_completion=True)) for k in range(n)]
            # machine ranges
            for p in self.params:
                kind, sz, _ = TY[p.ty]
                if kind == 'I':
                    M = 1 << (8 * sz)
                    x = inp[p.name]
                    if isinstance(x, list):
                        inp[p.name] = [int(y or 0) % M for y in x]
                    else:
                        inp[p.name] = int(x or 0) % M
                else:
                    x = inp[p.name]
                    if isinstance(x, list):
                        inp[p.name] = [float(y or 0) for y in x]
                    else:
                        inp[p.name] = float(x or 0)
            return inp
        except (OverflowError, TypeError, AttributeError):
            return None

    # ---------------------------------------------------------------- native side
    def rand_inputs(self, rng):
        inp = {}
        if self.sample:
            inp = dict(self.sample(rng) or {})
        for p in self.params:
            if p.name in inp or not isinstance(p, S):
                continue
            kind, sz, _ = TY[p.ty]
            lo, hi = trange(p.ty)
            if p.val is not None:
                inp[p.name] = p.val
            elif kind == 'I':
                l = lo if p.lo is None else p.lo
                h = hi if p.hi is None else p.hi
                inp[p.name] = rng.randint(l, min(h, l + 12)) if rng.random() < .9 else rng.randint(l, min(h, l + 40))
            else:
                inp[p.name] = rreal(rng)
        env = self.env(inp, partial=True)
        c = self._c
        for p in self.params:
            if p.name in inp:
                continue
            kind, sz, _ = TY[p.ty]
            lo, hi = trange(p.ty)
            e = self.ext[p.name]
            n = e if isinstance(e, int) else t.evaluate(e, env)
            if p.vals is not None:
                inp[p.name] = [x if x is not None else rng.randint(0, 12) if kind == 'I' else rreal(rng) for x in p.vals]
            elif kind == 'I':
                l = lo if p.lo is None else p.lo
                h = hi if p.hi is None else p.hi
                if callable(h):
                    h = h(inp)
                inp[p.name] = [rng.randint(l, min(h, l + 12)) for _ in range(n)]
            else:
                inp[p.name] = [rreal(rng) for _ in range(n)]
        for p in self.params:       # single precision: representable inputs
            if p.ty == 'f32':
                v = inp[p.name]
                inp[p.name] = ctypes.c_float(v).value if not isinstance(v, list) else [ctypes.c_float(x).value for x in v]
        return inp

    def env(self, inp, partial=False):
        env = {}
        c = self._c
        for p in self.params:
            if p.name not in inp:
                continue
            v = getattr(c.i, p.name)
            x = inp[p.name]
            if isinstance(p, S):
                if is_t(v):
                    env[v] = x
            elif isinstance(v, list):
                for a, b in zip(v, x):
                    if is_t(a):
                        env[a] = b
            else:
                env[v.term] = Seq(x)
        return env

    def _native(self, models, seed, n, rec, budget):
        self._c = c = self.symbols()
        co = Ctx()
        co.i = c.i
        self.out_symbols(co)
        co.sym = False
        self._co = co
        pre = self.requires(c)
        goals = self.ensures(co)
        tol = self.tol or (2e-3 if any(p.ty == 'f32' for p in self.params) else 1e-6)
        nat = Native(self)
        rng = random.Random(seed * 7919 + 13)
        t0 = time.time()
        todo = [('model of ' + lab, inp, True) for lab, inp in models]
        done = 0
        wit = None
        skipped = 0
        try:
            while (todo or done < n) and time.time() - t0 < budget and wit is None:
                batch = []
                if todo:
                    batch, todo = todo, []
                else:
                    k = 0
                    while len(batch) < 50 and k < 400:
                        k += 1
                        try:
                            inp = self.rand_inputs(rng)
                        except t.Undefined:
                            continue
                        batch.append(('search', inp, False))
                ok = []
                for how, inp, mdl in batch:
                    env = self.env(inp)
                    if self.gfuns:
                        self.funs = self.gfuns(inp)
                    try:
                        good = all(t.evaluate(q, env, self.funs, pol=mdl, tol=1e-9) for q in pre)
                    except (t.Undefined, ZeroDivisionError, OverflowError, ValueError):
                        good = False
                    if good:
                        ok.append((how, inp, env))
                    else:
                        skipped += 1
                        if skipped > 20 * n + 2000:
                            done = n
                if ok and rec['cover'] is None:
                    rec['cover'] = 'concrete input satisfying the precondition, executed natively'
                res = nat.batch([x[1] for x in ok])
                for (how, inp, env), o in zip(ok, res):
                    done += 1
                    rec['native_runs'] += 1
                    bad = None
                    if isinstance(o, str):
                        if not (self.allow_abort and o.startswith('abort')):
                            bad = (o, 'the call did not return normally')
                    else:
                        e2 = dict(env)
                        self.out_env(e2, o)
                        if self.gfuns:
                            self.funs = self.gfuns(inp)
                        memo = {}
                        for lab, g in goals:
                            try:
                                v = t.evaluate(g, e2, self.funs, memo, tol=tol)
                            except (t.Undefined, ZeroDivisionError, OverflowError, ValueError):
                                continue
                            except IndexError:
                                v = False
                            if not v:
                                bad = (lab, self.explain(g, e2))
                                break
                    if bad:
                        wit = dict(found_by=how, inputs=inp, outputs=o if not isinstance(o, str) else None,
                                   violated=bad[0], detail=bad[1])
                        break
        finally:
            nat.close()
        return wit

    def explain(self, g, env):
        return t.show(g, 5)[:600]

    def out_env(self, env, o):
        co = self._co
        for p in self.params:
            if isinstance(p, A) and p.mode != 'in':
                v = getattr(co.o, p.name)
                x = o[p.name]
                if isinstance(v, list):
                    for a, b in zip(v, x):
                        env[a] = b
                else:
                    env[v.term] = Seq(x)
        if self.ret:
            env[co.ret] = o['ret']


class Seq:
    """array contents; reads outside are arbitrary but harmless (postconditions guard them)"""

    def __init__(self, x):
        self.x = x

    def __call__(self, i):
        if 0 <= i < len(self.x):
            return self.x[i]
        raise IndexError(i)


def rreal(rng):
    k = rng.random()
    if k < .1:
        return 0.0
    if k < .25:
        return float(rng.choice([1, -1, 2, -2, .5, -.5]))
    if k < .6:
        return rng.randint(-16, 16) / 8
    return rng.uniform(-2, 2)


CAN = 64


class Native:
    """calls the wrapper's machine code in a child process"""

    def __init__(self, unit):
        self.u = unit
        self.so = build.native(unit.path(), unit.cfg, unit.key())
        self.pid = None

    def _spawn(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                os.close(w1)
                os.close(r2)
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                self._child(r1, w2)
            except BaseException:
                pass
            os._exit(0)
        os.close(r1)
        os.close(w2)
        self.pid, self.w, self.r = pid, w1, r2

    def _child(self, r, w):
        lib = ctypes.CDLL(self.so)
        f = getattr(lib, self.u.fn)
        u = self.u
        f.restype = TY[u.ret][2] if u.ret else None
        at = []
        for p in u.params:
            at.append(TY[p.ty][2] if isinstance(p, S) else ctypes.c_void_p)
        f.argtypes = at
        while True:
            d = rd(r)
            if d is None:
                return
            for inp in d:
                signal.alarm(10)
                args = []
                bufs = {}
                for p in u.params:
                    x = inp[p.name]
                    kind, sz, ct = TY[p.ty]
                    if isinstance(p, S):
                        args.append(ct(x))
                        continue
                    n = len(x)
                    b = (ctypes.c_uint8 * (n * sz + 2 * CAN))()
                    for k in range(CAN):
                        b[k] = 0xA5
                        b[CAN + n * sz + k] = 0xA5
                    a = (ct * n).from_buffer(b, CAN)
                    for k, y in enumerate(x):
                        a[k] = y
                    bufs[p.name] = (b, a, n * sz)
                    args.append(ctypes.c_void_p(ctypes.addressof(a)))
                ret = f(*args)
                o = {}
                bad = None
                for p in u.params:
                    if isinstance(p, A):
                        b, a, nb = bufs[p.name]
                        if any(b[k] != 0xA5 or b[CAN + nb + k] != 0xA5 for k in range(CAN)):
                            bad = f'memory: write outside of {p.name}'
                        ct = TY[p.ty][2]
                        M = 1 << (8 * TY[p.ty][1])
                        vals = [v % M if TY[p.ty][0] == 'I' else v for v in a]
                        if p.mode != 'in':
                            o[p.name] = vals
                        elif vals != [v % M if TY[p.ty][0] == 'I' else v for v in [ct(y).value for y in inp[p.name]]]:
                            bad = f'frame: {p.name} was modified'
                if u.ret:
                    o['ret'] = ret % (1 << (8 * TY[u.ret][1])) if TY[u.ret][0] == 'I' else ret
                wr(w, bad if bad else o)

    def batch(self, inps):
        out = []
        i = 0
        while i < len(inps):
            if self.pid is None:
                self._spawn()
            try:
                wr(self.w, inps[i:])
            except BrokenPipeError:
                pass
            while i < len(inps):
                x = rd(self.r)
                if x is None:
                    _, stt = os.waitpid(self.pid, 0)
                    os.close(self.w)
                    os.close(self.r)
                    self.pid = None
                    if os.WIFSIGNALED(stt):
                        s = os.WTERMSIG(stt)
                        out.append('crash: signal ' + str(s) if s != signal.SIGALRM else 'hang: no result within 10 s')
                    else:
                        c = os.WEXITSTATUS(stt)
                        out.append('abort: the code ended the program' if c == 77 else f'crash: exit {c}')
                    i += 1
                    break
                out.append(x)
                i += 1
        return out

    def close(self):
        if self.pid is not None:
            try:
                os.close(self.w)
                os.close(self.r)
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except OSError:
                pass
            self.pid = None


def wr(fd, obj):
    d = pickle.dumps(obj)
    d = len(d).to_bytes(8, 'little') + d
    while d:
        k = os.write(fd, d)
        d = d[k:]


def rd(fd):
    def get(n):
        b = b''
        while len(b) < n:
            x = os.read(fd, n - len(b))
            if not x:
                return None
            b += x
        return b
    h = get(8)
    if h is None:
        return None
    b = get(int.from_bytes(h, 'little'))
    return None if b is None else pickle.loads(b)
