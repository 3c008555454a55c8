#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from tools/props.py and tools/design.md."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props import PROPS, NOT_APPLICABLE, NOTES
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['forall']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                'observe_at': p['observe'],
                'hook_needed': p.get('hook'),
            },
        }, ensure_ascii=False) + '\n')
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
na = dict(NOT_APPLICABLE)
m = {
    'version': 1,
    'setup_cmd': 'bash setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'bash run.sh %s quick' % p['id'],
        'thorough_cmd': 'bash run.sh %s thorough' % p['id'],
        'technique': p['technique'],
        'level': p.get('level', 'model_checking'),
        'level_note': p['note'],
        'evidence_file': 'evidence/%s.json' % p['id'],
    } for p in PROPS if p['id'] not in na],
    'not_applicable': [{'property': i, 'reason': r} for i, r in NOT_APPLICABLE],
    'notes': NOTES,
}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')

import glob
rows = []
for p in PROPS:
    rows.append('### %s %s\n\n%s\n\n* Enumerated: %s.\n* Observed: %s.\n* Method: %s.\n* Beyond tests: %s.\n%s%s' % (
        p['id'], p['title'], p['statement'], p['forall'], '; '.join(p['observe']), p['technique'], p['why'],
        '* Notes: %s\n' % p['note'] if p['note'] else '',
        '* Cost: %s.\n' % p['cost'] if p.get('cost') else ''))
seeded = ['| planted bug | property | needs | breaks | noted |', '|---|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    s = json.load(open(d))
    seeded.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), s['property'], s['needs'], s['what_it_breaks'], s.get('noted', '')))
t = open(os.path.join(here, 'design.md')).read()
t = t.replace('@PROPS@', '## The properties\n\n' + '\n'.join(rows).rstrip()).replace('@SEEDED@', '\n'.join(seeded))
open(os.path.join(root, 'DESIGN.md'), 'w').write(t)
