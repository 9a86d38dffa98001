#!/usr/bin/env python3
# writes MANIFEST.json: one check per harness directory, the rest not applicable with the reasons below
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
NA = {}
exec(open(here + '/tools/na.py').read())
checks, na = [], []
for p in props:
    d = f"{here}/harness/{p['id']}"
    if os.path.isdir(d) and p['id'] not in NA:
        notes = []
        for f in sorted(x for x in os.listdir(d) if x[-3:] in ('.go', '.py')):
            py = f.endswith('.py')
            for m in re.finditer(r'^(?://|#)vf:note (.*)$', open(f'{d}/{f}').read(), re.M):
                notes.append(m.group(1))
        checks.append({
            'property': p['id'],
            'quick_cmd': f"./check.sh {p['id']} quick",
            'thorough_cmd': f"./check.sh {p['id']} thorough",
            'technique': 'symbolic execution of the Python source with an SMT solver (z3), counterexamples replayed natively' if py else 'symbolic execution of the Go SSA with an SMT solver (z3), counterexamples replayed natively',
            'level': 'model_checking',
            'level_note': 'Bounded: holds for every value of the symbolic inputs within the bounds in the evidence file. ' + ' '.join(notes),
        })
    else:
        na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
  'notes': 'Checks run /verif/bin/vfcheck (built from /verif/engine) or, for the Python code, pyengine/vfpy.py. No hooks in /repo: models of the environment are put in by a build overlay.'},
  open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
