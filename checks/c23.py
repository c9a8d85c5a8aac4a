"""C23: the source tree mirrors the tree of objects, and descriptions say what the product says."""
import json
import os

from vlib import gen, kinds, meta, mutate, product as P, rt
from vlib.core import case_rng

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=150, thorough=1500),
    rule='real products with objects renamed, cloned, removed, reordered, with synonyms in many languages and comments, '
         'are extracted; the folders, the identifiers in .id.json and the name, synonyms and comment in the description of '
         'every object are compared with those an independent reading of the product finds, commands that live in the file '
         'of their parent included; distinct = (kind of object, folder, description)',
    require={'objects': 1000, 'commands': 60, 'roots': 60, 'synonyms': 600, 'comments': 80, 'distinct': 330,
             'kinds_seen': 500, 'depth': 300},
    assumptions=['names are identifiers of the platform, unique among objects of one kind and parent'],
)
ROOTS = dict(erf='ExternalDataProcessor', epf803='ExternalDataProcessor', epf802='ExternalDataProcessor',
             cfe='ConfigurationExtension', apamold='Configuration', apam='Configuration', cf16='Configuration',
             cf='Configuration')

OPS = [mutate.rename, mutate.rename, mutate.twin, mutate.synonym, mutate.synonym, mutate.comment, mutate.comment,
       mutate.reorder, mutate.delete, mutate.clone, mutate.clone]


def cases(tier, seed):
    weights = dict(erf=3, epf803=6, epf802=6, cfe=8, apamold=6, apam=6, cf16=8, cf=3)
    k = 2 if tier == 'quick' else 40
    i = 0
    for r in range(k):
        for name, n in weights.items():
            for j in range(n):
                yield dict(kind=name, seed=seed, i=i)
                i += 1


def commands(tree):
    """headers of objects that live in the tree of their parent: [type, count, object...]"""
    out = []

    def walk(t):
        if not isinstance(t, list):
            return
        if len(t) > 2 and isinstance(t[0], tuple) and t[0][1] in kinds.KINDS and isinstance(t[1], tuple) \
                and t[1][1].isdigit() and int(t[1][1]) == len(t) - 2 and all(isinstance(x, list) for x in t[2:]):
            for x in t[2:]:
                h = meta.find_header(x, None)
                if h:
                    out.append((t[0][1], h))
            return
        for x in t:
            walk(x)

    walk(tree)
    return out


def expected(p):
    """{folder: (file name, uuid or None, header)}"""
    objs = meta.objects(p)
    out = {}

    def add(folder, typ, uuid, h):
        kind = kinds.KINDS[typ][0]
        folder = os.path.join(folder, kind, h[2][1])
        out.setdefault(folder, []).append((kind, uuid, h))
        return folder

    todo = [(meta.root_uuid(p), '')]
    while todo:
        u, folder = todo.pop()
        for c in objs[u].children:
            if c in objs:
                o = objs[c]
                todo.append((c, add(folder, o.type, c, o.header)))
        if folder:
            for typ, h in commands(p.tree(u)):
                add(folder, typ, h[1][2][1], h)
    return out


def quoted(t):
    return t[1].replace('"', '""')


def locales(h):
    return {quoted(h[3][i]): quoted(h[3][i + 1]) for i in range(1, len(h[3]) - 1, 2)}


def run(case, obs):
    rng = case_rng('C23', case['seed'], case['i'])
    kind = case['kind']
    p = rt.defuse(P.seed(kind))
    done = mutate.some(p, rng, rng.choice([0, 3, 6, 10]), OPS)
    if case['i'] % 2 and (d := mutate.deepen(p, rng)):
        done.append(d)
        obs.count('deep_trees')
    if rng.random() < 0.5:
        text = gen.text(rng, 0, 60).replace('ver:', 'ver ')
        langs = rng.sample(['ru', 'en', 'de', 'uk'], rng.randint(0, 3))

        def edit(h):
            h[3] = [('a', str(len(langs)))] + [y for x in langs for y in (('s', x), ('s', gen.text(rng, 0, 80)))]
            h[4] = ('s', text)

        mutate.set_header(p, meta.root_uuid(p), edit)
    src = os.path.join(obs.tmp, 'ws', 'src')
    rt.pick_schedule(rng)
    P.extract(obs, p.dump(mutate.random_layout(rng), 1), src)
    tree = P.read_dir(src)
    want = expected(p)
    if any(len(v) > 1 for v in want.values()) or len({k.lower() for k in want}) < len(want):
        return
    ids = {}
    for f, d in tree.items():
        if f.endswith('.id.json'):
            ids.setdefault(os.path.dirname(f), []).append((os.path.basename(f)[:-8], json.loads(d.decode('utf-8-sig'))))
    for folder in sorted(set(want) - set(ids)):
        obs.violation('object-without-folder', f'{folder} of {want[folder][0][:2]} is not in the sources')
    for folder in sorted(set(ids) - set(want)):
        obs.check(not folder, 'folder-without-object', f'{folder} in the sources, the product has no such object')
    seen = set()
    for folder in sorted(set(want) & set(ids)):
        name, uuid, h = want[folder][0]
        obs.count('objects')
        obs.count('depth', folder.count(os.sep) > 1)
        if uuid not in p.main:
            obs.count('commands')
        seen.add(name)
        describe(obs, tree, ids[folder], folder, name, uuid, h)
    obs.count('kinds_seen', len(seen))
    root = meta.root_uuid(p)
    h = meta.find_header(p.tree(root), None)
    obs.count('roots')
    describe(obs, tree, ids.get('', ()), '', ROOTS[kind], None, h)
    allowed = tuple(f + os.sep for f in want)
    stray = [f for f in tree if os.sep in f and not f.startswith(allowed)]
    obs.check(not stray, 'file-of-no-object', f'{stray[:5]} belong to no object of the product')
    obs.sample(dict(product=kind, done=done[:6], folders=sorted(want)[:6]))


def describe(obs, tree, ids, folder, name, uuid, h):
    if folder or ids:
        if not obs.check(len(ids) == 1 and ids[0][0] == name and (uuid is None or ids[0][1].get('uuid') == uuid),
                         'wrong-identifier', f'{folder}: {ids}, in the product {name} {uuid}'):
            return
    f = os.path.join(folder, name + '.json')
    if not obs.check(f in tree, 'no-description', f'{f} is missing'):
        return
    d = json.loads(tree[f].decode('utf-8-sig'))
    syn = locales(h)
    obs.count('synonyms', len(syn))
    obs.count('comments', bool(h[4][1]))
    obs.sig(name, folder, str(syn), h[4][1])
    obs.check(d.get('name') == quoted(h[2]), 'wrong-name', f'{f}: {d.get("name")!r}, in the product {h[2][1]!r}')
    obs.check(d.get('name2') == syn and list(d['name2']) == list(syn), 'wrong-synonyms',
              f'{f}: {d.get("name2")!r}, in the product {syn!r}')
    obs.check(d.get('comment') == quoted(h[4]), 'wrong-comment', f'{f}: {d.get("comment")!r}, in the product {h[4][1]!r}')
