#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json from the check modules"""
import os, sys, json
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import framework as F
F.load_all()
import re
out = []
for p in sorted(list(F.PROPS.values()) + list(F.NA.values()), key=lambda p: p.id):
    assert re.match(r'^[A-Z][0-9]{2,3}$', p.id), p.id
    assert len(p.title) <= 80, (p.id, len(p.title))
    n = len(re.findall(r'[.!?](?:\s|$)', p.statement))
    assert n <= 3, (p.id, n, p.statement)
    an = {'files': p.files, 'mechanism': [{'name': a, 'where': b} for a, b in p.mech]}
    for f in p.files: assert os.path.exists('/repo/' + f), (p.id, f)
    if p.state: an['state'] = p.state
    if p.observe: an['observe_at'] = p.observe
    out.append({'id': p.id, 'title': p.title, 'statement': p.statement, 'quantifier': {'over': p.over, 'text': p.qtext},
                'why_tests_cant': p.why, 'anchors': an})
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for o in out: f.write(json.dumps(o) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
     'checks': [], 'not_applicable': [{'property': p.id, 'reason': p.reason} for p in sorted(F.NA.values(), key=lambda p: p.id)],
     'notes': 'Static analysis only: every check compiles the working tree of /repo to LLVM IR (nothing of it is run) and decides its rules on that. See DESIGN.md.'}
for p in sorted(F.PROPS.values(), key=lambda p: p.id):
    m['checks'].append({'property': p.id, 'quick_cmd': 'python3 run.py %s --tier quick' % p.id, 'thorough_cmd': 'python3 run.py %s --tier thorough' % p.id,
                        'technique': p.technique, 'level': p.level, 'level_note': p.note})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1); f.write('\n')
import jsonschema
ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for o in out:
    jsonschema.validate(o, ps.get('items', ps))
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(out), 'properties,', len(m['checks']), 'checks,', len(m['not_applicable']), 'n/a')
