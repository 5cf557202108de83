"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py (the single source of both)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOTES

root = os.path.dirname(HERE)
checks, na = [], []
with open(os.path.join(root, 'properties.jsonl'), 'w') as fh:
    for p in PROPS:
        o = {k: p[k] for k in ('id', 'title', 'statement')}
        o['quantifier'] = {'over': p['over'], 'text': p['q']}
        o['why_tests_cant'] = p['why']
        o['anchors'] = {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}
        assert len(o['title']) <= 80, o['id']
        fh.write(json.dumps(o) + '\n')
        if 'na' in p:
            na.append({'property': p['id'], 'reason': p['na']})
        else:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'],
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                           'technique': p['tech'], 'level': 'other', 'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3 -m lsa.build', 'checks': checks, 'not_applicable': na, 'notes': NOTES}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')

# table of planted bugs in DESIGN.md
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | needs | caught by |', '|---|---|---|']
sd = os.path.join(V, 'seeded')
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['needs'], m.get('caught_by', m['property'])))
if os.path.exists(os.path.join(V, 'tools', 'DESIGN.in')):
    s = open(os.path.join(V, 'tools', 'DESIGN.in')).read()
    open(os.path.join(V, 'DESIGN.md'), 'w').write(s.replace('@@TABLE@@', '\n'.join(rows)))
