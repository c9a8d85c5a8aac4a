"""Refreshes the generated tables of DESIGN.md (between <!-- auto:X --> and <!-- /auto -->)."""
import glob
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)


def properties():
    out = []
    with open(os.path.join(ROOT, 'properties.jsonl')) as f:
        props = [json.loads(x) for x in f]
    for p in sorted(props, key=lambda x: x['id']):
        meta = importlib.import_module('checks.' + p['id'].lower()).META
        out.append(f"### {p['id']} — {p['title']}\n")
        out.append(f"*Workload and oracle.* {meta['rule'][0].upper()}{meta['rule'][1:]}.\n")
        req = ', '.join(f'{k} ≥ {v}' for k, v in meta['require'].items())
        out.append(f"*Observed at least (quick), else the run is inconclusive.* {req}.\n")
        for a in meta.get('assumptions') or []:
            out.append(f'*Assumes* {a}.\n')
        out.append(f"*Budget.* {meta['budget']['quick']} s quick, {meta['budget']['thorough']} s thorough; "
                   f"level: {meta['level']}.\n")
    return '\n'.join(out)


def fixed():
    with open(os.path.join(ROOT, 'known_findings.json')) as f:
        k = json.load(f)['findings']
    out = ['| property | commit | what failed |', '|---|---|---|']
    for x in k:
        if x.get('status') == 'fixed':
            what = re.sub(r'^fixed: property=\S+ \S+ ', '', x['what'])
            out.append(f"| {x['property']} | {x['commit']} | {what} |")
    return '\n'.join(out)


def opened():
    with open(os.path.join(ROOT, 'known_findings.json')) as f:
        k = json.load(f)['findings']
    return '\n'.join(f"* **{x['property']}** `{x.get('match', x.get('sig', x.get('key', '')))}`: {x['what']}"
                     for x in k if x.get('status') != 'fixed') or 'none'


def seeded():
    with open(os.path.join(ROOT, 'tools', 'caught.json')) as f:
        caught = json.load(f)
    out = ['| bug | property | needs | caught by |', '|---|---|---|---|']
    for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
        name = os.path.basename(os.path.dirname(d))
        with open(d) as f:
            m = json.load(f)
        out.append(f"| {name} | {m['property']} | {m['needs']} | {caught.get(name, '')} |")
    return '\n'.join(out)


def main():
    path = os.path.join(ROOT, 'DESIGN.md')
    with open(path) as f:
        t = f.read()
    for name, fn in dict(properties=properties, fixed=fixed, open=opened, seeded=seeded).items():
        t = re.sub(rf'(<!-- auto:{name} -->\n).*?(<!-- /auto -->)',
                   lambda m: m.group(1) + fn() + '\n' + m.group(2), t, flags=re.S)
    with open(path, 'w') as f:
        f.write(t)


main()
