#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.catalog import PROPS  # noqa: E402

props, checks = [], []
for p in PROPS:
    assert len(p['title']) <= 80, p['id']
    assert p['statement'].count('. ') <= 2, (p['id'], 'at most three sentences')
    if not os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')):
        print('no check yet for', p['id'])
        continue
    props.append(dict(id=p['id'], title=p['title'], statement=p['statement'],
                      quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                      anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                                   observe_at=p.get('observe', []), hook_needed=None)))
    cmd = f'/opt/venv/bin/python -W ignore check.py {p["id"]} --tier '
    checks.append(dict(property=p['id'], quick_cmd=cmd + 'quick', thorough_cmd=cmd + 'thorough',
                       technique=p['technique'], level=p.get('level', 'exploration'), level_note=p['note']))
with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
manifest = dict(version=1, setup_cmd='/opt/venv/bin/python -W ignore tools/setup.py', checks=checks, not_applicable=[],
                notes='Pure Python: the checks import the code from /repo/src (or $VERIF_REPO/src), nothing is built. '
                      'No hooks in /repo are needed: monitors wrap public calls, the file system and the worker pool '
                      'from outside.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(manifest, f, ensure_ascii=False, indent=1)
    f.write('\n')
print(len(props), 'properties', len(checks), 'checks')
