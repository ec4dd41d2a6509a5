#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
import checks
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        a = dict(files=p['files'], mechanism=p['mechanism'], observe_at=p['observe'], hook_needed=None)
        if p['state']:
            a['state'] = p['state']
        for x in p['files']:
            assert os.path.exists(os.path.join('/repo', x)), x
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                                why_tests_cant=p['why'], anchors=a)) + '\n')
m = dict(version=1, setup_cmd='python3 lib/setup.py', checks=[], not_applicable=[])
for p in PROPS:
    if p['id'] not in checks.CHECKS:
        m['not_applicable'].append(dict(property=p['id'], reason='no check yet'))
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd=f"python3 run.py {p['id']} --tier quick", thorough_cmd=f"python3 run.py {p['id']} --tier thorough",
                            evidence_file=f"evidence/{p['id']}.json", technique=p['technique'], level='exploration', level_note=p['note']))
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
