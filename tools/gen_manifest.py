"""Writes MANIFEST.json. CLAIMED: id -> (technique detail, what is enumerated / trusted)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, '..', 'properties.jsonl'))]
notes = json.load(open(os.path.join(here, 'claims.json')))
checks, na = [], []
for p in props:
    c = notes.get(p['id'])
    if not c:
        na.append({'property': p['id'], 'reason': 'not claimed yet: its explorer is still being built'})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': f"./check.sh {p['id']} quick",
        'thorough_cmd': f"./check.sh {p['id']} thorough",
        'evidence_file': f"evidence/{p['id']}.json",
        'technique': 'stateless model checking of the real code: exhaustive bounded enumeration of ' + c['enumerates'],
        'level': 'model_checking',
        'level_note': c['note'],
    })
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every explorer drives the public API of the working tree. See DESIGN.md.'}
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
