"""writes MANIFEST.json from the list of claimed checks"""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
GO = ('symbolic execution of go/ssa over z3 (gosym), counterexamples replayed natively', 'model_checking',
      'Every path of the harness over every input within the stated bounds is decided by z3; symbolic lengths are not unrolled. '
      'Trusts the Go SSA executor (validated each run by native replay of sampled paths), go/ssa and z3.')
CLAIM = {}
for i in range(1, 10):
    CLAIM['C%02d' % i] = GO
NA = {}
exec(open('/verif/tools/claims.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIM:
        t, l, n = CLAIM[i]
        checks.append({'property': i, 'quick_cmd': f'./check {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check {i}', 'technique': t, 'level': l, 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA[i]})
json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
