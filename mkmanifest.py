"""Writes MANIFEST.json from checks/*.py (development aid)."""
import json, os, re
V = os.path.dirname(os.path.abspath(__file__))
D = json.load(open(V + '/vlib/manifest_notes.json'))
checks = []
for f in sorted(os.listdir(V + '/checks')):
    m = re.match(r'(c\d\d)\.py$', f)
    if not m or m.group(1).upper() not in D:
        continue
    p = m.group(1).upper()
    checks.append({'property': p, 'quick_cmd': './check ' + p, 'thorough_cmd': 'VERIF_TIER=thorough ./check %s --thorough' % p,
                   'level': D[p]['level'], 'technique': D[p]['technique'], 'level_note': D[p]['note']})
allp = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
have = {c['property'] for c in checks}
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks,
           'not_applicable': [{'property': p, 'reason': D.get('NA', {}).get(p, 'check still being built')} for p in allp if p not in have]},
          open(V + '/MANIFEST.json', 'w'), indent=1)
