#!/opt/veriftools/pyvenv/bin/python3
"""check.py PXX [--unit NAME] [--replay FILE]: decides one property from /repo's current sources."""
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(200000)
from vp import build          # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def load(pid):
    m = importlib.import_module('contracts.' + pid.lower())
    units = m.units()
    if TIER != 'thorough':
        units = [u for u in units if u.tier == 'quick']
    return m, units


_units = None
_pid = None


def work(k):
    u = _units[k]
    try:
        return u.run(SEED, TIER)
    except BaseException as e:       # never lose a unit
        import traceback
        return dict(unit=u.name, fn=u.fn, obligations=1, discharged=0, backends={}, solver_s=0, functions=[],
                    loops_invariant=0, loops_unrolled=0, bounded=u.bounded, assumed=[], wall_s=0, native_runs=0,
                    cover=None, instructions=0, witness=None, invariants=[],
                    failed=[dict(obligation='verifier', detail=traceback.format_exc()[-2000:])])


def child(k, q):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    except Exception:
        pass
    q.put((k, work(k)))


def run_units(units, jobs=8):
    """every unit in its own process (a crash or memory exhaustion of one does not lose the others)"""
    ctx = mp.get_context('fork')
    q = ctx.Queue()
    pend = sorted(range(len(units)), key=lambda k: -getattr(units[k], 'weight', 0))
    live = {}
    res = {}
    stop = None
    while pend or live:
        if stop and time.time() > stop:
            # a failing input is confirmed: the remaining units cannot change the outcome
            for k, (p, _) in live.items():
                p.kill()
                res[k] = dict(lost(units[k], ''), failed=[], obligations=0)
            for k in pend:
                res[k] = dict(lost(units[k], ''), failed=[], obligations=0)
            break
        while pend and len(live) < jobs:
            k = pend.pop(0)
            p = ctx.Process(target=child, args=(k, q))
            p.start()
            live[k] = (p, time.time())
        try:
            k, r = q.get(timeout=.2)
            res[k] = r
            live.pop(k)[0].join()
            if r['witness'] and r['failed'] and not is_known(units[k], r) and not stop:
                stop = time.time() + 45
            if os.environ.get('VP_DEBUG'):
                print(f"   {r['unit']}: {r['discharged']}/{r['obligations']} {r['backends']} {r['wall_s']}s runs={r['native_runs']}"
                      f" inv={r['loops_invariant']} cover={bool(r['cover'])} wit={bool(r['witness'])}", flush=True)
            continue
        except Exception:
            pass
        for k, (p, t0) in list(live.items()):
            if not p.is_alive() and q.empty():
                time.sleep(.3)
                if not q.empty():
                    continue
                live.pop(k)
                res[k] = lost(units[k], f'worker ended with {p.exitcode}')
            elif time.time() - t0 > units[k].timeout + 300:
                p.kill()
                live.pop(k)
                res[k] = lost(units[k], 'worker time limit')
    return [res[k] for k in range(len(units))]


def lost(u, why):
    return dict(unit=u.name, fn=u.fn, obligations=1, discharged=0, backends={}, solver_s=0, functions=[], loops_invariant=0,
                loops_unrolled=0, bounded=u.bounded, assumed=[], wall_s=0, native_runs=0, cover=None, instructions=0,
                witness=None, invariants=[], failed=[dict(obligation='verifier', detail=why)])


def known():
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        return [e for e in json.load(open(p)) if e.get('status') == 'open']
    return []


def findings(u, r):
    return [e for e in known() if e['property'] == _pid and e['unit'] == u.name
            and all(f['obligation'] in e['obligations'] for f in r['failed'])
            and (r['witness'] is None or r['witness']['violated'] in e['violated'])]


def is_known(u, r):
    return bool(findings(u, r))


def main():
    global _units, _pid
    a = sys.argv[1:]
    pid = _pid = a[0]
    only = a[a.index('--unit') + 1] if '--unit' in a else None
    t0 = time.time()
    mod, units = load(pid)
    if only:
        units = [u for u in units if only in u.name]
    _units = units
    keys = {}
    for u in units:
        keys[u.key()] = u
    errs = {}

    def comp(u):
        try:
            build.ir(u.path(), u.cfg, u.key())
        except Exception as e:
            errs[u.key()] = str(e)
        if u.native:
            try:
                build.native(u.path(), u.cfg, u.key())
            except Exception as e:
                errs.setdefault(u.key(), str(e))
    build.tmpdir()
    with ThreadPoolExecutor(8) as tp:
        list(tp.map(comp, keys.values()))
    if errs and os.environ.get('VP_DEBUG'):
        for k, e in errs.items():
            print(k, e[:3000])
    res = run_units(units)
    viol = []
    for u, r in zip(units, res):
        if not r['failed'] and not r['witness']:
            continue
        hit = findings(u, r)
        if hit:
            r['known'] = len(r['failed'])
            for e in hit:
                print(f'KNOWN-FINDING: property={pid} {e["what"]}')
            continue
        viol.append((u, r))
    kn = sum(r.get('known', 0) for r in res)
    obl = sum(r['obligations'] for r in res) - kn
    dis = sum(r['discharged'] for r in res)
    by = {}
    for r in res:
        for k, v in r['backends'].items():
            by[k] = by.get(k, 0) + v
    fns = sorted(set(f for r in res for f in r['functions']))
    bounded = [dict(unit=r['unit'], bound=r['bounded']) for r in res if r['bounded']]
    ass = list(getattr(mod, 'ASSUMPTIONS', [])) + BASE_ASSUMPTIONS + sorted(set(x for r in res for x in r['assumed']))
    ev = dict(property=pid, tier=TIER if TIER in ('quick', 'thorough') else 'quick', seed=SEED, level='proof',
              coverage=dict(obligations=obl, discharged=dis, checker_cmd=f'./check.py {pid}',
                            trusted_base=['clang 18 front end and opt (sroa, early-cse, simplifycfg, loop-simplify)',
                                          'vp/exec.py verification-condition generator', 'vp/solve.py normal form',
                                          'z3 ' + zver(), 'cvc5 (fallback)'],
                            backends=by, solver_s=round(sum(r['solver_s'] for r in res), 2),
                            known_finding_obligations=kn, functions_under_contract=fns, n_functions=len(fns),
                            units=[dict(unit=r['unit'], obligations=r['obligations'], discharged=r['discharged'],
                                        loops_by_invariant=r['loops_invariant'], loops_unrolled=r['loops_unrolled'],
                                        ir_instructions=r['instructions'], cover=r['cover'], native_runs=r['native_runs'],
                                        bounded=r['bounded'], wall_s=r['wall_s']) for r in res],
                            bounded_units=bounded,
                            native_validation_runs=sum(r['native_runs'] for r in res)),
              assumptions=ass, wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    # replay files
    rd = os.path.join(HERE, 'evidence', 'replay')
    if viol:
        os.makedirs(rd, exist_ok=True)
        # one line per violated unit, confirmed ones first; when a failing input exists, report only confirmed ones
        conf = [v for v in viol if v[1]['witness']]
        for u, r in (conf or viol):
            p = os.path.join(rd, f'{pid}_{u.name}.json')
            json.dump(dict(property=pid, unit=u.name, function=u.fn, failed_obligations=r['failed'], witness=r['witness'],
                           replay_command=f'./check.py {pid} --unit {u.name}'), open(p, 'w'), indent=1, default=str)
            tail = '' if r['witness'] else ' no-failing-input-found'
            print(f'  {u.name}: ' + '; '.join(f['obligation'] for f in r['failed'])[:400]
                  + (f"; violated: {r['witness']['violated']}" if r['witness'] else ''))
            print(f'VIOLATION property={pid} replay={p}{tail}')
        sys.stdout.flush()
        return 1
    print(f'{pid}: {dis}/{obl} obligations discharged in {len(res)} units, {len(fns)} functions, {time.time()-t0:.1f} s')
    return 0


BASE_ASSUMPTIONS = [
    'floating-point arithmetic is treated as real arithmetic; floating literals stand for the simplest rational that rounds to them',
    'OpenMP pragmas are ignored (sequential semantics); logging is replaced by a stand-in whose failed CHECK/LOG(FATAL) must be unreachable',
    'operator new succeeds; C++ exceptions are modelled as aborts that must be unreachable',
    'distinct array arguments do not alias; integer arithmetic flagged nsw/nuw by clang does not overflow (otherwise machine wrap-around is modelled)',
]


def zver():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        pid = sys.argv[1] if len(sys.argv) > 1 else '?'
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, f'{pid}_internal.json')
        json.dump(dict(property=pid, failed_obligations=[dict(obligation='check did not complete', detail=traceback.format_exc())]), open(p, 'w'))
        print(f'VIOLATION property={pid} replay={p} no-failing-input-found')
        rc = 1
    sys.stdout.flush()
    sys.exit(rc)
