"""Writes MANIFEST.json from the check modules."""
import glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
mods = {}
for fn in sorted(glob.glob(os.path.join(HERE, 'checks', 'c[0-9]*.py'))):
    ns = {}
    src = open(fn).read()
    import ast
    t = ast.parse(src)
    for n in t.body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ('BOUNDS', 'ASSUMPTIONS', 'TECHNIQUE', 'LEVEL'):
            ns[n.targets[0].id] = ast.literal_eval(n.value)
    mods[os.path.basename(fn)[:-3].split('_')[0].upper()] = ns
TECH = ("symbolic execution of the real functions (concolic, source rewritten from /repo on every run) over exact algebra, "
        "branches and assertions decided by z3, solver-chosen witnesses replayed on the real package")
checks, na = [], []
for p in props:
    i = p['id']
    if i not in mods:
        na.append(dict(property=i, reason=NA[i] if 'NA' in globals() and i in NA else 'no check built yet'))
        continue
    m = mods[i]
    note = 'Exhaustive over all values within the bounds: ' + m.get('BOUNDS', '') + '. Real arithmetic (no rounding). Assumes: ' + \
        ('; '.join(m.get('ASSUMPTIONS', [])) or 'nothing further') + '. Trusts z3, the numpy shim and the exact algebra of /verif/engine, validated against the real package at solver-chosen points of every case.'
    checks.append(dict(property=i, quick_cmd=f'python3 run.py {i}', thorough_cmd=f'VERIF_TIER=thorough python3 run.py {i}',
                       technique=m.get('TECHNIQUE', TECH), level=m.get('LEVEL', 'model_checking'), level_note=note))
json.dump(dict(version=1, setup_cmd='python3 run.py --setup', checks=checks, not_applicable=na,
               notes='No hooks in /repo. See DESIGN.md.'), open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
