"""C13: sources of several versions side by side (descent): every version builds what was extracted for it."""
import os
import re

from vlib import brace, env, forms as F, mutate, product as P, rt
from vlib.core import Violation, case_rng

META = dict(
    level='exploration', timeout=240,
    budget=dict(quick=200, thorough=1500),
    rule='a history of extractions of edited products under random version numbers (ascending, descending, repeated) '
         'goes into one source folder; after each step the folder must match a model of the version rule (a file is '
         'written under the version number only if it differs from the nearest older version, nothing else is '
         'touched), and builds for versions in between must equal builds of the tree the model predicts; '
         'distinct = (product, history)',
    require={'steps': 60, 'builds': 40, 'distinct': 15, 'versioned_files': 100, 'inherited_files': 300,
             'older_version_builds': 10, 'new_objects': 3, 'form_parts': 3, 'dotted_areas': 2,
             'areas_apart': 1},
    assumptions=['objects are added but not removed over the history (files of removed objects cannot be told '
                 'apart from inherited ones)'],
)

NUMBERS = [3000075, 3000076, 3000080, 3000075100, 3000075101, 3000088003, 4100200, 75, 8, 30000751, 1000000, 12000001]


def cases(tier, seed):
    weights = dict(erf=4, epf803=8, epf802=5, cfe=6, apam=4, cf16=4, cf=1)
    k = 2 if tier == 'quick' else 12
    yield dict(kind='apam', seed=seed, i=100000, taken=True)
    i = 0
    for r in range(k):
        for name, n in weights.items():
            for j in range(n):
                yield dict(kind=name, seed=seed, i=i)
                i += 1


OPS = [mutate.module, mutate.module, mutate.localized, mutate.localized, mutate.payload, mutate.payload, mutate.raw_asset,
       mutate.synonym]


def add_area(p, rng):
    """a code area kept next to the module (versioned) or outside of the sources (not versioned)"""
    m = mutate.modules(p)
    if not m:
        return
    m = sorted(x for x in m if x[1] != 'module')
    if not m:
        return
    k, n = m[0] if rng.random() < 0.6 else rng.choice(m)  # the same module again and again
    if mutate.is_old(p):
        return
    old = p.main[k][n].decode('utf-8-sig', 'replace')
    parts = re.findall(r'include_(\S+)\n// (\d+)\n', old)
    if len(parts) == 2 and old.startswith('Перем А;\n#') and rng.random() < 0.8:  # one of two areas changes
        area, number = rng.choice(parts)
        t = old.replace(f'include_{area}\n// {number}\n', f'include_{area}\n// {int(number) + 1}\n')
        p.main[k][n] = b'\xef\xbb\xbf' + t.encode()
        return f'area {k} one of {area}'
    name = rng.choice(['Foo', 'Foo', 'Foo2', 'Foob', 'Общее', 'Foo.x', 'Foo.x', 'Foo.xy', 'Foo.xz'])
    body = f'// {rng.randrange(3)}\n'
    own = "m" + k.split(".")[-1]  # modules of one object share a folder
    t = f'Перем А;\n#Область include_{own}{name}\n{body}#КонецОбласти\n'
    other = {'Foo': 'Foo2', 'Foo.x': 'Foo.xy', 'Foo.xy': 'Foo.xz'}.get(name)
    if other and rng.random() < 0.8:
        t += f'#Область include_{own}{other}\n// {rng.randrange(3)}\n#КонецОбласти\n'
    p.main[k][n] = b'\xef\xbb\xbf' + t.encode()
    return f'area {k} {name}'


def blank(p, rng):
    """a change of nothing but blanks"""
    m = [(k, n) for k, n in mutate.modules(p) if isinstance(p.main.get(k), dict) and p.main[k].get(n)]
    if m and rng.random() < 0.7:
        k, n = rng.choice(sorted(m))
        d = p.main[k][n]
        if d[:2] in (b'\xff\xfe', b'\xfe\xff'):
            return
        p.main[k][n] = rng.choice([d + b'\r\n', d + b'  ', d + b'\r\n\t\r\n', d.rstrip() if len(d.rstrip()) > 3 else d + b'\r\n'])
        return f'blank {k} {n}'
    f = [k for k, d in p.main.items() if k.endswith('.0') and isinstance(d, bytes) and d[:4] == b'MOXC']
    if f:
        k = rng.choice(sorted(f))
        d = p.main[k]
        p.main[k] = rng.choice([d + b'\n', d + b' ', d + b'\0', d.rstrip(b' \n')])
        return f'blank {k}'


def form_part(p, rng):
    """a change of one part of a managed form: only its attributes, parameters, commands or the order of elements"""
    keys = [k for k, v in sorted(p.main.items()) if isinstance(v, bytes) and k.endswith('.0')]
    rng.shuffle(keys)
    for k in keys[:8]:
        if not F.is_managed(p, k):
            continue
        roots = brace.parse(P.strip_tail(brace.to_text(p.main[k])))
        t, used, done = roots[0], set(), []
        if rng.random() < 0.5:
            F.edit_members(t, rng, used, done)
        else:
            for _ in range(30):
                e = F.some_edit(t[1], rng, used)
                if e and e['op'] == 'shuffle':
                    F.apply_raw(t[1], e)
                    done.append('order')
                    break
        if done:
            p.set_tree(k, roots)
            return f'form {k} {done[0]}'


def snapshot(root):
    r = {}
    for rel, data in P.read_dir(root).items():
        r[rel] = data
    return r


def near(h, v):
    c = [x for x in h if x <= v]
    return max(c) if c else None


def versioned_name(rel, v):
    if not v:
        return rel  # the base version has no number
    d, b = os.path.split(rel)
    parts = b.split('.')
    parts.insert(-1, str(v))
    return os.path.join(d, '.'.join(parts))


def same(name, a, b):
    return a == b


def run(case, obs):
    rng = case_rng('C13', case['seed'], case['i'])
    kind = case['kind']
    p = rt.defuse(P.seed(kind))
    nv = rng.randint(2, 4)
    numbers = rng.sample(NUMBERS, nv)
    taken = False
    # the pictures and settings of a configuration have names that read like versions of Configuration.json (a known
    # finding): only the case meant to show that gives a configuration a base version without a number
    taken = case.get('taken', False)
    if taken or rng.random() < 0.4 and kind not in ('cf', 'cf16', 'apam'):
        numbers[0] = 0
        obs.count('base_versions')
    steps = rng.choice([sorted(numbers), sorted(numbers), numbers, numbers + [rng.choice(numbers)]])
    src = os.path.join(obs.tmp, 'ws', 'conf', 'src')
    hist = {}
    base = None
    q = p
    log = []
    ascending = all(a < b for a, b in zip(steps, steps[1:]))
    grow = ascending and rng.random() < 0.5
    products = {}
    for si, v in enumerate(steps):
        q = (q if grow or rng.random() < 0.7 else p).copy()
        if grow and si:  # a new object exists from this version on
            for _ in range(rng.randint(1, 2)):
                if mutate.clone(q, rng):
                    obs.count('new_objects')
        ops = OPS + [blank, blank, form_part, form_part, form_part] + ([add_area] * 4 if kind in ('epf803', 'cfe', 'apam', 'cf16') else [])
        done = mutate.some(q, rng, rng.choice([0, 1, 1, 2, 3, 4]), ops) if si else mutate.some(q, rng, 1, [add_area])
        raw = q.dump(mutate.random_layout(rng), 1)
        # what a plain extraction of the same file gives
        plain = os.path.join(obs.tmp, f'plain{si}', 'src')
        rt.pick_schedule(rng)
        P.extract(obs, raw, plain)
        tree = snapshot(plain)
        if base is None:
            base = set(tree)
        rt.pick_schedule(rng)
        P.extract(obs, raw, src, 'extract-descent-raises', options={'descent': v})
        for rel, data in tree.items():
            h = hist.setdefault(rel, {})
            n = near(h, v)
            if v in h or n is None or h[n] != data:
                h[v] = data
        want = {versioned_name(rel, v2): d for rel, h in hist.items() for v2, d in h.items()}
        got = snapshot(src)
        obs.count('steps')
        log.append((v, done))
        obs.count('form_parts', sum(1 for d in done if str(d).startswith('form ')))
        obs.count('areas_apart', sum(1 for d in done if ' one of ' in str(d)))
        obs.count('dotted_areas', sum(1 for d in done if str(d).startswith('area ') and '.' in str(d).split()[-1]))
        for rel in sorted(set(want) | set(got)):
            obs.count('assertions')
            if taken and want.get(rel) != got.get(rel) and re.fullmatch(r'Configuration(\.\d+)?\.json', rel):
                raise Violation('own-number', f'after {log}: {rel}: the base version (without a number) of '
                                              f'Configuration.json is mistaken')
            if rel not in got:
                raise Violation('version-file-lost', f'after {log}: {rel} is missing')
            if rel not in want:
                raise Violation('version-file-extra', f'after {log}: {rel} appeared')
            if want[rel] != got[rel]:
                raise Violation('version-file-content', f'after {log}: {rel} holds {got[rel][:80]!r}, '
                                                        f'expected {want[rel][:80]!r}')
        obs.count('versioned_files', len(want))
        products[v] = q
    probe = set(steps) | {v + 1 for v in steps} | {max(steps) * 10} - {0, 1} | ({0} if 0 in steps else set())
    for v in rng.sample(sorted(probe), min(3 if kind in ('cf', 'cf16') else 5, len(probe))):
        if v < min(steps) or v == 1 or any(near(h, v) is None for rel, h in hist.items() if rel in base):
            continue
        tree = {rel: h[near(h, v)] for rel, h in hist.items() if near(h, v) is not None}
        obs.count('absent_files', len(hist) - len(tree))
        obs.count('inherited_files', sum(1 for h in hist.values() if near(h, v) != v))
        flat = os.path.join(obs.tmp, f'flat{v}', 'src')
        for rel, data in tree.items():
            P.write(os.path.join(flat, rel), data)
        rt.pick_schedule(rng)
        want = P.parse_built(P.build(obs, flat))
        rt.pick_schedule(rng)
        out = P.build(obs, src, 'build-descent-raises', options={'descent': v})
        got = P.parse_built(out)
        if v < max(steps):
            obs.count('older_version_builds')
        diff = P.differences(want, got, ('versions',))
        if taken and diff:
            raise Violation('own-number', f'history {log}, built for {v}: {diff[0]}')
        for f, what in diff:
            obs.violation('build-version:' + what.split(' ')[0], f'history {log}, built for {v}: {f}: {what}')
        if ascending and near({s: 1 for s in steps}, v):
            obs.count('exact_builds')
            for f, what in P.differences(products[near({s: 1 for s in steps}, v)], got):
                obs.violation('build-other-version:' + what.split(' ')[0],
                              f'history {log}, built for {v}: {f}: {what}')
    obs.sig(kind, tuple((v, tuple(d)) for v, d in log))
    obs.sample(dict(product=kind, history=log))
