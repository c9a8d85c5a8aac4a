"""C22: with auto_include the table of contents of a product is what lies in the folders."""
import json
import os
import shutil

from vlib import env, gen, meta, mutate, product as P, rt
from vlib.core import case_rng

META = dict(
    level='exploration', timeout=150,
    budget=dict(quick=150, thorough=1500),
    rule='products are extracted with auto_include, then object folders are removed, copied under new names and '
         'identifiers (within a parent, to other parents, into types that had no objects, from another product) over '
         'several steps; each build must list exactly the objects whose folders exist, at their parents, sorted by '
         'name, hold their files, keep no placeholder, and extract to the same folders again; '
         'distinct = (product, history)',
    require={'builds': 60, 'removed': 40, 'copied': 40, 'first_of_type': 5, 'last_of_type': 8, 'listed_objects': 800},
    assumptions=['a copied object gets new identifiers (id.json) as the documentation asks'],
)
KINDS = {'erf': 14, 'epf803': 14, 'epf802': 10, 'cfe': 16, 'apam': 5, 'cf16': 10}


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    i = 0
    for r in range(k):
        for kind, n in KINDS.items():
            for j in range(n):
                yield dict(kind=kind, seed=seed, i=i)
                i += 1


def types():
    return {t.name: t.value for t in env.metadata_types.MetaDataTypes}


def folders(root, names):
    """object folders below: [(path, type, uuid, name, path of the parent object or '')]"""
    out = []

    def walk(d, parent):
        for t in sorted(os.listdir(d)):
            td = os.path.join(d, t)
            if t not in names or not os.path.isdir(td):
                continue
            for n in sorted(os.listdir(td)):
                od = os.path.join(td, n)
                if not os.path.isdir(od):
                    continue
                ids = [f for f in os.listdir(od) if f.endswith('.id.json')]
                if not ids:
                    continue
                with open(os.path.join(od, ids[0]), encoding='utf-8') as f:
                    u = json.load(f)['uuid']
                with open(os.path.join(od, ids[0][:-8] + '.json'), encoding='utf-8') as f:
                    name = json.load(f)['name']
                out.append((od, t, u, name, parent))
                walk(od, od)
    walk(root, '')
    return out


def set_name(v, old, new):
    """the name in the description: header [.., [.., id], "name", ..]"""
    if isinstance(v, list):
        if len(v) > 4 and isinstance(v[1], list) and v[2] == f'"{old}"' and isinstance(v[3], list):
            v[2] = f'"{new}"'
            return True
        return any(set_name(x, old, new) for x in v)
    return False


def copy(src, dst, new, rng):
    """a copy of an object folder with a new name and new identifiers throughout"""
    shutil.copytree(src, dst)
    for dp, dn, fn in os.walk(dst):
        for f in fn:
            full = os.path.join(dp, f)
            if f.endswith('.id.json'):
                with open(full, encoding='utf-8') as fd:
                    d = json.load(fd)
                d = {k: gen.uuid(rng) if isinstance(v, str) and meta.is_uuid(v) else v for k, v in d.items()}
                with open(full, 'w', encoding='utf-8') as fd:
                    json.dump(d, fd)
    base = [f for f in os.listdir(dst) if f.endswith('.id.json')][0][:-8]
    full = os.path.join(dst, base + '.json')
    with open(full, encoding='utf-8') as fd:
        d = json.load(fd)
    old = d['name']
    d['name'] = new
    set_name(d['header'], old, new)
    with open(full, 'w', encoding='utf-8') as fd:
        json.dump(d, fd, ensure_ascii=False, indent=1)


def run(case, obs):
    rng = case_rng('C22', case['seed'], case['i'])
    p = rt.defuse(P.seed(case['kind']))
    done = mutate.some(p, rng, rng.randint(0, 2))
    if case['i'] % 2 and (d := mutate.deepen(p, rng)):
        done.append(d)
        obs.count('deep_trees')
    names = types()
    opts = dict(auto_include=True)
    env.schedule('fifo')
    raw = p.dump(None, 1)
    for i in range(2):  # numbers of elements settle with the second extraction
        src = os.path.join(obs.tmp, f'ws{i}', 'src')
        P.extract(obs, raw, src, options=opts)
        raw = P.build(obs, src, options=opts)
    check(obs, src, raw, names, 'as-is')
    P.rmtree(src)
    P.extract(obs, raw, src, options=opts)
    stash = []
    if rng.random() < 0.6:
        # a product without any object of some type, to which one is added later
        small = sorted({os.path.dirname(f[0]) for f in folders(src, names) if len(os.listdir(os.path.dirname(f[0]))) < 12})
        if small:
            td = rng.choice(small)
            keep = os.path.join(obs.tmp, 'stash', os.path.basename(td))
            os.makedirs(os.path.dirname(keep))
            parent = os.path.dirname(td)
            shutil.move(td, keep)
            stash = [(f[0], f[1], f[2], f[3], parent) for f in folders(os.path.dirname(keep), names) if not f[4]]
            raw = P.build(obs, src, options=opts)
            P.extract(obs, raw, src, options=opts)
    donor = None
    if rng.random() < 0.5:
        dk = rng.choice(['erf', 'epf803'] if case['kind'] in ('erf', 'epf803') else [case['kind']])
        donor = os.path.join(obs.tmp, 'donor', 'src')
        P.extract(obs, rt.defuse(P.seed(dk)).dump(None, 1), donor, options=opts)
        settled = P.build(obs, donor, options=opts)
        P.extract(obs, settled, donor, options=opts)
    for step in range(2):
        label = []
        for _ in range(rng.randint(1, 4)):
            label.append(edit(obs, rng, src, donor, names, stash))
        tag = ''
        if not any(label):
            continue
        rt.pick_schedule(rng)
        raw = P.build(obs, src, 'build-raises', options=opts)
        check(obs, src, raw, names, tag)
        obs.sig(case['kind'], [x for x in label if x])
        again = os.path.join(obs.tmp, f'again{step}', 'src')
        P.extract(obs, raw, again, 'extract-again-raises', options=opts)
        a, b = P.read_dir(src), P.read_dir(again)
        bad = sorted(f for f in set(a) | set(b) if a.get(f) != b.get(f) and not same_json(a.get(f), b.get(f)))
        obs.check(not bad, 'not-fixed' + kind(bad), f'after {label}: extracting what was built gives other files: {bad[:4]}' + (detail(a.get(bad[0]), b.get(bad[0])) if bad else ''))
        obs.sample(dict(product=case['kind'], edits=label))


def detail(a, b):
    if a is None or b is None:
        return ' (missing on one side)'
    try:
        a, b = json.loads(a), json.loads(b)
    except Exception:
        return ''
    out = []

    def walk(x, y, path):
        if len(out) > 3 or x == y:
            return
        if isinstance(x, dict) and isinstance(y, dict):
            for k in sorted(set(x) | set(y)):
                walk(x.get(k), y.get(k), path + [k])
        elif isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
            for i, (m, n) in enumerate(zip(x, y)):
                walk(m, n, path + [i])
        else:
            out.append(f'{path}: {str(x)[:80]} -> {str(y)[:80]}')
    walk(a, b, [])
    return '; '.join([''] + out)


def kind(bad):
    return ':' + bad[0].split('/')[-2 if '/' in bad[0] else -1] if bad else ''


def same_json(a, b):
    """a type without objects is a placeholder in the one and an empty list in the other"""
    names = {v: k for k, v in types().items()}

    def norm(v):
        if isinstance(v, list):
            if len(v) == 2 and v[1] == '0' and isinstance(v[0], str) and v[0] in names:
                return names[v[0]]
            return [norm(x) for x in v]
        if isinstance(v, dict):
            return {k: norm(x[:2] if k == 'configinfo' else x) for k, x in v.items() if k != 'versions'}
        return v
    try:
        return norm(json.loads(a)) == norm(json.loads(b))
    except Exception:
        return False


def edit(obs, rng, src, donor, names, stash):
    objs = folders(src, names)
    if stash and rng.random() < 0.5:
        o = rng.choice(stash)
        if os.path.isdir(o[4]):
            return place(obs, rng, o, os.path.join(o[4], o[1]), src)
    op = rng.choice(['remove', 'remove-type', 'copy', 'copy', 'move', 'donor', 'donor'])
    if op == 'remove-type':
        # all objects of one type of one parent
        o = rng.choice(objs) if objs else None
        if not o:
            return
        td = os.path.dirname(o[0])
        n = len(os.listdir(td))
        if n > 40:
            return
        if rng.random() < 0.6:
            shutil.rmtree(td)
        else:
            for x in os.listdir(td):
                shutil.rmtree(os.path.join(td, x))
        obs.count('removed', n)
        obs.count('last_of_type')
        return f'remove all {os.path.relpath(td, src)}'
    if op == 'remove' and objs:
        o = rng.choice(objs)
        td = os.path.dirname(o[0])
        shutil.rmtree(o[0])
        obs.count('removed')
        if not os.listdir(td):
            obs.count('last_of_type')
            if rng.random() < 0.6:
                os.rmdir(td)
        return f'remove {os.path.relpath(o[0], src)}'
    if op in ('copy', 'move') and objs:
        o = rng.choice(objs)
        parents = {x[0] for x in objs if os.path.basename(os.path.dirname(x[0])) ==
                   os.path.basename(os.path.dirname(o[4]))} if o[4] else {src}
        par = o[4] or src
        if op == 'move':
            par = rng.choice(sorted(parents))
        return place(obs, rng, o, os.path.join(par, o[1]), src)
    if op == 'donor' and donor:
        d = folders(donor, names)
        # only what this product can hold
        root = ''.join(open(os.path.join(src, f), encoding='utf-8').read() for f in os.listdir(src)
                       if f in ('Configuration.json', 'ConfigurationExtension.json', 'ExternalDataProcessor.json'))
        d = [x for x in d if not x[4] and (names[x[1]] in root or f'"{x[1]}"' in root)]
        if not d:
            return
        o = rng.choice(d)
        return place(obs, rng, o, os.path.join(src, o[1]), src)


def place(obs, rng, o, td, src):
    first = not os.path.isdir(td) or not os.listdir(td)
    for _ in range(20):
        new = rng.choice([gen.ident(rng, 1, 12), o[3] + '1', 'А' + o[3], o[3]])
        dst = os.path.join(td, new)
        if not os.path.exists(dst) and new.lower() not in {x.lower() for x in (os.listdir(td) if os.path.isdir(td) else ())}:
            break
    else:
        return
    copy(o[0], dst, new, rng)
    obs.count('copied')
    obs.count('first_of_type', int(first))
    return f'copy {o[1]} to {os.path.relpath(dst, src)}'


def check(obs, src, raw, names, tag):
    """the product lists exactly the folders"""
    p = P.parse_built(raw)
    root = meta.root_uuid(p)
    have = {u: o for u, o in meta.objects(p).items() if u != root}
    fo = folders(src, names)
    by_path = {f[0]: f for f in fo}
    want = {}
    for path, t, u, name, parent in fo:
        want[u] = (names[t], by_path[parent][2] if parent else root, name)
    listed = {}
    for u in [root] + list(have):
        try:
            trees = p.tree(u)
        except Exception:
            continue
        found = []
        scan(trees, found, names)
        obs.check(not [x for x in found if isinstance(x, str)], 'placeholder', f'{u} holds a placeholder: {found[:2]}')
    for u, (t, parent, name) in want.items():
        o = have.get(u)
        if o is None:
            # an object without a file of its own lies within its parent
            obs.check(u in str_of(p, parent), 'not-listed', f'{name} ({u}) has a folder and is not in the product')
            continue
        listed.setdefault((parent, t), []).append(name)
        obs.check(o.parent == parent and o.type == t, 'misplaced', f'{name}: {o.parent} {o.type}')
    extra = sorted(o.name or u for u, o in have.items() if u not in want)
    obs.check(not extra, 'ghost', f'listed without a folder: {extra[:4]}')
    obs.count('listed_objects', len(have))
    for u, o in list(have.items()) + [(root, meta.objects(p)[root])]:
        order = {}
        for c in o.children:
            if c in want and c in have:
                order.setdefault(have[c].type, []).append(want[c][2])
        for t, lst in order.items():
            obs.check(lst == sorted(lst), 'order', f'not sorted by name: {lst[:6]}')
    for what in P.consistency(raw, p):
        obs.violation('bookkeeping:' + what.split(' ')[0], what)


def str_of(p, u):
    v = p.main.get(u)
    return v.decode('utf-8', 'replace') if v is not None else ''


def scan(t, found, names):
    if isinstance(t, list):
        for x in t:
            scan(x, found, names)
    elif isinstance(t, tuple) and t[0] == 'a' and t[1] in names:
        found.append(t[1])
