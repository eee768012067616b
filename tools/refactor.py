#!/usr/bin/env python3
"""Behaviour-preserving refactorings of /repo; every check has to stay quiet on them.

refactor.py FILE [VARIANT..]: FILE defines VARIANTS = {name: [(file, old, new)]}; builds a scratch copy
with all edits of a variant, runs the repository's tests on it, then all checks.
"""
import os, shutil, subprocess, sys, json, concurrent.futures as cf
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg')


def main():
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), ns)
    names = sys.argv[2:] or list(ns['VARIANTS'])
    checks = sorted(c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks'])
    only = os.environ.get('CHECKS')
    if only:
        checks = only.split(',')
    for name in names:
        wt = f'/tmp/refac-{name}'
        shutil.rmtree(wt, ignore_errors=True)
        subprocess.run(['cp', '-a', '/repo', wt], check=True)
        bad = False
        for fn, old, new in ns['VARIANTS'][name]:
            p = os.path.join(wt, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(name, 'EDIT DOES NOT MATCH', s.count(old), repr(old[:80]))
                bad = True
                continue
            open(p, 'w').write(s.replace(old, new))
        if bad:
            continue
        if not os.environ.get('NOTEST'):
            r = subprocess.run('/opt/venv/bin/python -m pytest -q -x -n 4 tests 2>&1 | tail -4', shell=True, cwd=wt, env=dict(ENV, PYTHONPATH=wt), capture_output=True, text=True)
            print(name, r.stdout.strip().splitlines()[-1:], flush=True)
        def one(c):
            r = subprocess.run([sys.executable, HERE + '/run.py', c], env=dict(ENV, QMAT_REPO=wt, VERIF_TIER='quick', VERIF_SEED='1'), capture_output=True, text=True)
            return c, r
        for c in checks:
            c, r = one(c)
            out = [l for l in r.stdout.splitlines() if not l.startswith('KNOWN-FINDING')]
            print(name, c, 'rc', r.returncode, '' if r.returncode == 0 and not any('nconclusive' in l for l in out) else '\n'.join(out[-12:]) + r.stderr[-600:], flush=True)
        shutil.rmtree(wt, ignore_errors=True)


main()
