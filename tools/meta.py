#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list in props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOTES

ROOT = os.path.dirname(HERE)
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as o:
    for p in PROPS:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']])
        if p.get('state'):
            a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
        a['observe_at'] = p.get('observe', [])
        a['hook_needed'] = None
        o.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['quant']),
                                why_tests_cant=p['why'], anchors=a)) + '\n')
        assert len(p['title']) <= 80, p['title']
m = dict(version=1,
         setup_cmd='python3 engine/front.py --setup',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'],
                      thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                      technique=p['technique'], level='other', level_note=p['note'])
                 for p in PROPS if p.get('technique')],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in PROPS if p.get('na')],
         notes=NOTES)
for p in PROPS:
    assert bool(p.get('technique')) != bool(p.get('na')), p['id']
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as o:
    json.dump(m, o, indent=1)
    o.write('\n')
print(len(PROPS), 'properties,', len(m['checks']), 'claimed')
