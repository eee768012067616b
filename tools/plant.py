#!/usr/bin/env python3
"""Plants bugs in a scratch copy of /repo, validates them, and keeps them in /verif/seeded.

plant.py FILE [IDS]: FILE defines BUGS = [dict(id, property, edits=[(file, old, new)...], demo=..., needs=..., breaks=...)].
"""
import json, os, shutil, subprocess, sys, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/plant'
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', MPLBACKEND='Agg')


def sh(cmd, cwd=None, env=ENV, timeout=900):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def fresh():
    shutil.rmtree(WT, ignore_errors=True)
    sh(f'cp -a /repo {WT}')
    sh('git checkout -q -- . && git clean -fdq', WT)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:]
    fresh()
    stable = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if os.path.exists('/opt/vp/BASELINE.json') else set()
    base = sh('git show 7461b1d:qmat/__init__.py', WT)
    for b in ns['BUGS']:
        if ids and b['id'] not in ids:
            continue
        sh('git checkout -q -- .', WT)
        d = os.path.join('/tmp/plantout', b['id'])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write('"""Exits with 1 when the property is broken."""\nimport sys\nimport numpy as np\n' + b['demo'].strip() + '\nprint("ok")\n')
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\n# run in the repository\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r0 = sh(f'bash {d}/demo.sh', WT)
        if r0.returncode:
            print(b['id'], 'DEMO FAILS UNCHANGED', (r0.stdout + r0.stderr)[-400:])
            continue
        ok = True
        for fn, old, new in b['edits']:
            p = os.path.join(WT, fn)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'EDIT DOES NOT MATCH', s.count(old), old[:60])
                ok = False
                break
            orig = sh(f'git show 7461b1d:{fn}', WT).stdout
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            continue
        diff = sh('git diff', WT).stdout
        for l in diff.splitlines():
            if l.startswith('-') and not l.startswith('---') and l[1:] not in orig.splitlines():
                print(b['id'], 'NOTE: removes a line that is not original:', l)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        r1 = sh(f'bash {d}/demo.sh', WT)
        if r1.returncode == 0:
            print(b['id'], 'DEMO PASSES WITH THE CHANGE')
            continue
        t = sh(f'{PY} -m pytest -q -x -p no:cacheprovider --timeout=300 --randomly-seed=1 --randomly-dont-reorganize -n 8 tests 2>&1 | tail -4', WT)
        tail = t.stdout.strip().splitlines()
        if not tail or 'failed' in t.stdout or 'error' in t.stdout.lower() or 'passed' not in t.stdout:
            print(b['id'], 'TESTS FAIL', tail[-3:])
            continue
        c = sh(f'python3 run.py {b["property"]}', HERE, dict(ENV, QMAT_REPO=WT, VERIF_SEED='1', VERIF_TIER='quick'))
        caught = c.returncode == 1 and f'VIOLATION property={b["property"]}' in c.stdout
        dst = os.path.join(HERE, 'seeded', b['id'])
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        print(b['id'], b['property'], 'CAUGHT' if caught else f'MISSED rc={c.returncode}', '|', tail[-1][:60], '|', ' / '.join(c.stdout.strip().splitlines()[-4:])[:300], flush=True)


main()
