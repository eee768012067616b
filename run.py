#!/usr/bin/env python3
"""Decides one property:  run.py CXX   (VERIF_TIER=quick|thorough, VERIF_SEED)
   run.py CXX --case NAME            run the cases whose name contains NAME, verbosely
   run.py --replay FILE              run a recorded violation against /repo
"""
import os
import sys

for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
VENV = '/opt/veriftools/pyvenv/bin/python3'
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv'):
    os.execv(VENV, [VENV] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import glob
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import resource
import time

sys.setrecursionlimit(20000)
sys.set_int_max_str_digits(0)
from engine import loader, runcase
import numpy, scipy.linalg, scipy.optimize, scipy.sparse, scipy.special  # noqa: preloaded for the workers

NPROC = min(8, os.cpu_count() or 1)
MEM = 6 << 30


def find_module(pid):
    for fn in sorted(glob.glob(os.path.join(HERE, 'checks', 'c*.py'))):
        name = os.path.basename(fn)[:-3]
        if name.split('_')[0].upper() == pid.upper():
            return name
    raise SystemExit(f"no check for {pid}")


def child(conn, modname, case, seed):
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    try:
        r = runcase.run_case(modname, case, seed)
    except MemoryError:
        r = dict(case=case['name'], status='inconclusive', why='memory limit')
    except BaseException as e:
        import traceback
        r = dict(case=case['name'], status='inconclusive', why=f"engine: {type(e).__name__}: {e} " +
                 traceback.format_exc()[-600:])
    try:
        conn.send(r)
    finally:
        conn.close()
        os._exit(0)


def run_all(modname, cases, seed, stop_on_violation=True, deadline=None):
    ctx = mp.get_context('fork')
    todo = list(cases)
    todo.reverse()
    running = {}
    results = []
    violated = False
    while todo or running:
        while todo and len(running) < NPROC and not (violated and stop_on_violation):
            c = todo.pop()
            if deadline and time.time() > deadline:
                results.append(dict(case=c['name'], status='inconclusive', why='run budget'))
                continue
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, modname, c, seed))
            p.start()
            b.close()
            running[a] = (p, c, time.time() + c.get('budget', 40) + 40)
        if violated and stop_on_violation:
            for a, (p, c, _) in running.items():
                p.kill()
                p.join()
            break
        for a in multiprocessing.connection.wait(list(running), timeout=1):
            p, c, _ = running.pop(a)
            try:
                r = a.recv()
            except EOFError:
                r = dict(case=c['name'], status='inconclusive', why='worker ended without an answer')
            a.close()
            p.join()
            results.append(r)
            violated |= r['status'] == 'violated'
        now = time.time()
        for a in [a for a, (p, c, t) in running.items() if now > t]:
            p, c, _ = running.pop(a)
            p.kill()
            p.join()
            a.close()
            results.append(dict(case=c['name'], status='inconclusive', why='hard time limit'))
    return results


def load_known():
    fn = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return json.load(f)['findings']


def main():
    args = sys.argv[1:]
    if args and args[0] == '--setup':
        import z3
        print('z3', z3.get_version_string(), 'numpy', numpy.__version__, 'repo', loader.REPO)
        return 0
    if args and args[0] == '--replay':
        return do_replay(args[1])
    pid = args[0].upper()
    sel = args[args.index('--case') + 1] if '--case' in args else None
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    modname = find_module(pid)
    plain = runcase.load_check(modname, False)
    cases = plain['cases'](tier)
    if sel:
        cases = [c for c in cases if sel in c['name']]
    # compile the sources once, before forking
    for root, dirs, files in os.walk(os.path.join(loader.REPO, 'qmat')):
        for f in files:
            if f.endswith('.py'):
                try:
                    loader.get_code(os.path.join(root, f))
                except SyntaxError:
                    pass
    loader.get_code(os.path.join(HERE, 'checks', modname + '.py'))
    budget = plain.get('BUDGET', {}).get(tier, 780 if tier == 'quick' else 3000)
    results = run_all(modname, cases, seed, stop_on_violation=not sel, deadline=t0 + budget)
    if sel:
        for r in results:
            print(json.dumps({k: v for k, v in r.items() if k not in ('functions', 'samples')}, indent=1, default=str))
    return finish(pid, tier, seed, t0, modname, plain, cases, results)


def finish(pid, tier, seed, t0, modname, plain, cases, results):
    viol = [r for r in results if r['status'] == 'violated']
    proved = [r for r in results if r['status'] == 'proved']
    inc = [r for r in results if r['status'] == 'inconclusive']
    tot = lambda k: sum(r.get(k, 0) for r in results)
    st = lambda k: sum(r.get('stats', {}).get(k, 0) for r in results)
    funcs = {}
    for r in results:
        for f, l in r.get('functions', {}).items():
            funcs.setdefault(f, set()).update(l)
    stubs = sorted({s for r in results for s in r.get('stubs', [])})
    samples = []
    for r in results:
        for s in r.get('samples', [])[:1]:
            if len(samples) < 8:
                samples.append(dict(case=r['case'], **s))
    known = [k for k in load_known() if k['property'] == pid and k.get('status') == 'known']
    wall = time.time() - t0
    if '-v' in sys.argv:
        for r in sorted(results, key=lambda r: -r.get('wall', 0)):
            print(f"  {r.get('wall', 0):6.1f}s {r['status']:12s} {r['case']} paths={r.get('paths')} q={r.get('stats', {}).get('queries')} {r.get('why', '')[:160]}")
    cov = dict(
        states=tot('paths'), transitions=st('decisions') + tot('paths'),
        traces_validated_against_impl=tot('validated'), samples=samples or ['none'],
        cases=len(cases), cases_decided=len(proved), cases_inconclusive=len(inc),
        cases_violated=len(viol), assertions=tot('obligations'), assertions_discharged=tot('discharged'),
        identities_confirmed_by_z3=tot('z3_confirmed'), identities_by_normal_form_only=tot('normal_form'),
        values_validated_against_impl=tot('validated_values'), replays_set_aside_as_rounding=tot('rounding'),
        solver_queries=st('queries'), solver_unknown=st('unknown'), solver_seconds=round(st('solver_s'), 2),
        infeasible_paths_dropped=tot('dropped') + st('dropped'),
        functions_encoded={k: sorted(v) for k, v in sorted(funcs.items())},
        bounds=plain.get('BOUNDS', ''), stubs=stubs,
        inconclusive=[f"{r['case']}: {r['why']}" for r in inc][:40],
        explanation="states = feasible execution paths of the real code explored symbolically; transitions = "
                    "branch decisions of those paths; traces_validated_against_impl = solver-chosen points of "
                    "those paths replayed on the imported package with agreeing results")
    ev = dict(property=pid, tier=tier, seed=seed, level=plain.get('LEVEL', 'model_checking'), coverage=cov,
              assumptions=plain.get('ASSUMPTIONS', []) + [f"contract stub: {s}" for s in stubs],
              wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for r in inc:
        print(f"INCONCLUSIVE {pid} {r['case']}: {r['why'][:300]}")
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid} [{tier}] cases={len(cases)} decided={len(proved)} inconclusive={len(inc)} paths={cov['states']} "
          f"assertions={cov['assertions']} queries={cov['solver_queries']} solver={cov['solver_seconds']}s wall={wall:.1f}s")
    if viol:
        os.makedirs(os.path.join(HERE, 'out', 'replays'), exist_ok=True)
        v = viol[0]
        path = os.path.join(HERE, 'out', 'replays', f"{pid}-{os.getpid()}.json")
        rec = dict(property=pid, case=v['case'], **v['violation'])
        with open(path, 'w') as f:
            json.dump(rec, f, indent=1, default=str)
        print(f"  case {v['case']}  inputs { {k: x[1] for k, x in v['violation']['values'].items()} } "
              f"choices {v['violation']['choices']}")
        for l, m in v['violation']['failures'][:4]:
            print(f"  {l}: {m}")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if not proved:
        print(f"{pid}: nothing decided")
        return 2
    return 0


def do_replay(fn):
    from fractions import Fraction
    with open(fn) as f:
        r = json.load(f)
    vals = {k: Fraction(v[0]) for k, v in r['values'].items()}
    fails, outs, note = runcase.replay(r['module'], r['fn'], r['params'], vals, r['choices'], r.get('precise'))
    for l, m in fails or []:
        print(f"{l}: {m}")
    print("REPRODUCED" if fails else "not reproduced " + note)
    return 1 if fails else 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
