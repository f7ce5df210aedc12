#!/usr/bin/env python3
# Writes properties.jsonl and MANIFEST.json from the table in props.py.
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, 'tools'))
import props
with open(here + '/properties.jsonl', 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks, na = [], []
for p in props.PROPS:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    if not os.path.exists(f"{here}/checks/{p['id']}.cpp"):
        na.append({'property': p['id'], 'reason': 'not built yet'})
        continue
    checks.append({'property': p['id'], 'quick_cmd': f"bash run.sh {p['id']} quick", 'thorough_cmd': f"bash run.sh {p['id']} thorough",
                   'technique': p['technique'], 'level': p['level'], 'level_note': p['note'], 'evidence_file': f"evidence/{p['id']}.json"})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na, 'notes': props.NOTES}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
