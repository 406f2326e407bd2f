#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (single source for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: contracts on the real code (clang LLVM IR extracted from /repo on every run), verification conditions by symbolic execution with inferred loop invariants, discharged by term canonicalisation and z3'
P = []
def prop(id, title, statement, over, qtext, why, files, mech, claim=None, na=None, observe=None, level='proof', note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, na=na, observe=observe, level=level, note=note))
exec(open(os.path.join(V, 'tools', 'props_table.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None}
        if p['observe']: a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks = []; na = []
for p in P:
    if p['na']: na.append({'property': p['id'], 'reason': p['na']}); continue
    checks.append({'property': p['id'], 'quick_cmd': 'bin/check %s --quick' % p['id'], 'thorough_cmd': 'bin/check %s --thorough' % p['id'],
                   'technique': TECH, 'level': p['level'], 'level_note': p['note'], 'evidence_file': 'evidence/%s.json' % p['id']})
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(json.load(open(os.path.join(V, 'MANIFEST.json'))), json.load(open('/root/.vp/MANIFEST.schema.json')))
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')): jsonschema.validate(json.loads(l), sch)
    print('valid; claimed', [c['property'] for c in checks], 'not claimed', [n['property'] for n in na])
except ImportError: pass
