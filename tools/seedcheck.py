#!/usr/bin/env python3
"""Runs the check of each seeded change (all, or the ids given) on a scratch copy carrying it."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
ids = sys.argv[1:] or sorted(os.listdir(SEED))
WT = f'/tmp/seedcheck{os.getpid()}'
miss = []
for i in ids:
    m = json.load(open(f'{SEED}/{i}/meta.json'))
    shutil.rmtree(WT, ignore_errors=True)
    subprocess.run(f'mkdir {WT} && cp -a /repo/. {WT}/ && cd {WT} && git checkout -q -- . && git apply {SEED}/{i}/patch.diff', shell=True, check=True)
    r = subprocess.run(['python3-vt', 'run.py', m['property']], cwd=HERE, env=dict(os.environ, QMAT_REPO=WT, VERIF_TIER='quick', VERIF_SEED='1'),
                       capture_output=True, text=True)
    ok = r.returncode == 1 and f"VIOLATION property={m['property']}" in r.stdout
    if not ok:
        miss.append(i)
    print(i, m['property'], 'caught' if ok else f'MISSED rc={r.returncode}', '|', ' / '.join(r.stdout.strip().splitlines()[-4:])[:300], flush=True)
shutil.rmtree(WT, ignore_errors=True)
print('missed:', miss)
