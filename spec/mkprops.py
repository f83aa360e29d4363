#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from one table (run by hand)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = 'k2/python/k2/'
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), tech=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None),
                  _tech=tech, _note=note, _na=na))


exec(open(os.path.join(V, 'spec', 'props_table.py'), encoding='utf-8').read())

with open(os.path.join(V, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith('_')}, ensure_ascii=False) + '\n')
checks, na = [], []
for p in P:
    have = os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py'))
    if p['_na'] or not have:
        na.append(dict(property=p['id'], reason=p['_na'] or 'the check is not built yet'))
        continue
    cmd = 'python3 checks/%s.py' % p['id'].lower()
    checks.append(dict(property=p['id'], quick_cmd=cmd, thorough_cmd=cmd, technique=p['_tech'], level='other',
                       level_note=p['_note']))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='Static analysis only: no check runs code of the repository. Exit 2 means the analysis itself lost an anchor.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
