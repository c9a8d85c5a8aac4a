"""C14: the index places files outside of the sources and the build collects them from there."""
import json
import os

from vlib import env, mutate, product as P, rt
from vlib.core import Violation, case_rng
from checks import c13

META = dict(
    level='exploration', timeout=180,
    budget=dict(quick=150, thorough=1500),
    rule='a random index over the files of a product (single files renamed or moved, whole folders with *, exceptions '
         'listed before it, null and empty entries, entries for absent folders, nested index files, with and without '
         'descent); the extraction must leave exactly the files of a plain extraction at the places the index says, '
         'the build must give the same product, files edited or added at those places must be built, the index '
         'must win over a stale local copy, and the current directory must not matter; distinct = indexes',
    require={'moved_files': 900, 'star_folders': 30, 'star_first': 8, 'kept_by_null': 30, 'distinct': 60, 'stale_local_copies': 40,
             'descent': 8, 'nested_indexes': 15, 'overridden_entries': 25, 'edited_moved': 40,
             'bare_names': 40, 'taken_files': 30, 'excluded_files': 20,
             'placed_not_taken': 25},
    assumptions=['targets lie outside of the sources (documented) and different files go to different places'],
)


def cases(tier, seed):
    weights = dict(erf=3, epf803=10, epf802=6, cfe=8, apam=4, cf16=6, cf=1)
    k = 3 if tier == 'quick' else 40
    i = 0
    for r in range(k):
        for name, n in weights.items():
            if name == 'cf' and r % 3:
                continue
            for j in range(n):
                yield dict(kind=name, seed=seed, i=i)
                i += 1


def put(index, rel, value):
    parts = rel.split('/')
    for x in parts[:-1]:
        index = index.setdefault(x, {})
    index[parts[-1]] = value


def make_index(obs, rng, tree):
    """-> (index, {relative source path: path relative to the root or None})"""
    index, place = {}, {rel: None for rel in tree}
    folders = {}
    for rel in tree:
        folders.setdefault(os.path.dirname(rel), []).append(rel)
    share = rng.choice([0.1, 0.3, 0.8])
    taken = set()
    take = []
    for d, files in sorted(folders.items()):
        star = d and rng.random() < share / 2
        if d and len(files) > 1 and not star and rng.random() < share / 3:  # taken from a folder by a build, except for the files named
            plain = [f for f in sorted(files) if '-' not in os.path.basename(f)]
            rng.shuffle(plain)
            n = rng.randint(1, max(1, min(5, len(plain) - 1)))
            out, over = plain[:n], plain[n:n + 3]
            t = os.path.join('take', str(len(taken)))
            taken.add(t)
            names = [os.path.basename(f) for f in out]
            if over and rng.random() < 0.5:  # not the name of a file: excludes nothing
                names.insert(rng.randrange(len(names) + 1), os.path.basename(over[0])[:-rng.randint(1, 4)])
            put(index, os.path.join(d, '-'.join(['*'] + names)), t)
            obs.count('taken_folders')
            take.append((t, d, out, over))
            continue
        explicit = [f for f in sorted(files) if rng.random() < (0.25 if star else share)]
        rng.shuffle(explicit)
        for f in explicit:
            k = rng.random()
            if k < 0.2:
                put(index, f, rng.choice([None, '']))
                obs.count('kept_by_null')
                continue
            base = os.path.basename(f)
            if k < 0.45:  # under another name
                ext = '.elem.json' if base.endswith('.elem.json') else os.path.splitext(base)[1]
                base = f'Общий{len(taken)}' + ext
            t = os.path.join(rng.choice(['core', 'core/a', 'base/' + d, 'Общие файлы/' + d, '../other', '', 'conf/src2', 'src2/' + d]), base)
            if t in taken:
                t = f'Ещё{len(taken)}' + base
            if '/' not in t:
                obs.count('bare_names')
            if t in taken:
                t = os.path.join('u', str(len(taken)), base)
            taken.add(t)
            put(index, f, t)
            place[f] = t
        if star:
            t = os.path.join(rng.choice(['core', 'lib/x']), f'f{len(taken)}', os.path.basename(d))
            taken.add(t)
            put(index, os.path.join(d, '*'), t)
            obs.count('star_folders')
            if rng.random() < 0.4:  # an entry may follow the * (as those the generator adds do)
                here = index
                for x in d.split('/'):
                    here = here[x]
                items = list(here.items())
                rng.shuffle(items)
                here.clear()
                here.update(items)
                obs.count('star_first', items[-1][0] != '*')
            for f in files:
                if f not in explicit:
                    place[f] = os.path.join(t, os.path.basename(f))
    return index, place, take


def split(obs, rng, index, where):
    """an index may refer to other index files: they are merged in the order of their names, this one is the last"""
    parts = [{}, {}, {}]

    def entry(n, path, value):
        d = parts[n]
        for x in path[:-1]:
            d = d.setdefault(x, {})
        d[path[-1]] = value

    def spread(d, path):
        for k, v in d.items():
            here = path + [k]
            if isinstance(v, dict):
                spread(v, here)
                continue
            n = 2 if k.startswith('*') else rng.randrange(3)  # what a folder is taken to is listed last
            entry(n, here, v)
            for lower in range(n):  # overridden
                if not k.startswith('*') and rng.random() < 0.3:
                    entry(lower, here, rng.choice([f'wrong/{lower}/{k}', None, '']))
                    obs.count('overridden_entries')

    spread(index, [])
    names = []
    for n, part in enumerate(parts[:2]):
        f = P.write(os.path.join(where, f'sub{n}.json'), json.dumps(part, ensure_ascii=False).encode())
        names.append(f)
    obs.count('nested_indexes')
    return {'index.json': names, 'Нет': {'такого.json': None}, **parts[2]}


def run(case, obs):
    rng = case_rng('C14', case['seed'], case['i'])
    kind = case['kind']
    p = rt.defuse(P.seed(kind))
    done = mutate.some(p, rng, rng.choice([0, 2, 5]))
    raw = p.dump(None, 1)
    plain = os.path.join(obs.tmp, 'plain', 'src')
    rt.pick_schedule(rng)
    P.extract(obs, raw, plain)
    tree = P.read_dir(plain)
    index, place, take = make_index(obs, rng, tree)
    if not index:
        index = {'Нет.json': None}
    descent = rng.choice([None, None, 3000075])
    opts = {'descent': descent} if descent else None
    ws = os.path.join(obs.tmp, 'ws', 'r', 'r2')
    src = os.path.join(ws, 'conf', 'src') if descent else os.path.join(ws, 'src')
    if descent:
        obs.count('descent')
    full = split(obs, rng, index, ws) if rng.random() < 0.3 else dict(
        index, **({'Нет такой': {'папки.json': '', '*': 'core/нет'}} if rng.random() < 0.3 else {}))
    ifile = P.write(os.path.join(obs.tmp, 'ws', 'index.json'), json.dumps(full, ensure_ascii=False).encode())
    junk = {}
    if rng.random() < 0.4 and not descent:  # extracted over an older state
        for f in rng.sample(sorted(tree), min(4, len(tree))):
            t = place[f]
            P.write(os.path.join(ws, t) if t else os.path.join(src, f), b'{"stale": 1}')
    P.write(os.path.join(ws, 'core', 'README.txt'), b'keep')
    P.write(os.path.join(ws, 'readme'), b'keep')
    os.chdir(rng.choice([obs.tmp, ws, '/']))
    rt.pick_schedule(rng)
    P.extract(obs, raw, src, 'extract-index-raises', index=ifile, options=opts)
    want = {}

    def at(f):
        if place[f]:
            return os.path.normpath(os.path.join(ws, place[f]))
        return os.path.join(src, c13.versioned_name(f, descent) if descent else f)

    for f, d in tree.items():
        want[at(f)] = d
        if place[f]:
            obs.count('moved_files')
    got = {os.path.join(obs.tmp, 'ws', r): d for r, d in P.read_dir(os.path.join(obs.tmp, 'ws')).items()}
    for x in ('core/README.txt', 'readme'):
        obs.check(got.pop(os.path.join(ws, x), None) == b'keep', 'neighbour-lost', f'{x} was touched')
    for f in list(got):
        if os.path.basename(f) in ('index.json', 'sub0.json', 'sub1.json') and f not in want:
            del got[f]
    short = lambda f: os.path.relpath(f, ws)
    for f in sorted(set(want) | set(got)):
        obs.count('assertions')
        if f not in got:
            obs.violation('placed-missing', f'{short(f)} is missing')
        elif f not in want:
            obs.violation('placed-extra', f'{short(f)} appeared')
        elif got[f] != want[f]:
            obs.violation('placed-content', f'{short(f)} differs from the plain extraction')
    if obs.violations:
        return
    os.chdir(rng.choice([obs.tmp, ws, '/']))
    # a stale copy of a moved file next to the sources
    moved = [f for f in tree if place[f]]
    stale = rng.sample(sorted(moved), min(len(moved), 3)) if rng.random() < 0.4 else []
    for f in stale:
        P.write(os.path.join(src, f), b'stale' if not f.endswith('.json') else b'{"stale": "copy"}')
        obs.count('stale_local_copies')
    # files of another object in the folder of *: kept files and those with a place of their own are not taken from it
    for f in tree:
        if rng.random() < 0.5:
            d = index
            for x in f.split('/')[:-1]:
                d = d.get(x, {}) if isinstance(d, dict) else {}
            b = os.path.basename(f)
            if isinstance(d, dict) and '*' in d and b in d and not os.path.exists(os.path.join(ws, d['*'], b)):
                P.write(os.path.join(ws, d['*'], b), b'{"other": "object"}' if f.endswith('.json') else b'other')
                obs.count('placed_not_taken' if place[f] else 'kept_not_taken')
    # files of a folder that only a build takes from
    for t, d, out, over in take:
        P.write(os.path.join(ws, t, 'sub', 'deep.txt'), b'not a file of the folder itself')
        for f in out:
            P.write(os.path.join(ws, t, os.path.basename(f)), b'{"other": "object"}' if f.endswith('.json') else b'// other')
            obs.count('excluded_files')
        for f in over:
            data = tree[f]
            if f.endswith('.bsl'):
                data = b'// taken'
                P.write(os.path.join(plain, f), data)
            P.write(os.path.join(ws, t, os.path.basename(f)), data)
            P.write(at(f), b'stale' if not f.endswith('.json') else b'{"stale": "copy"}')
            obs.count('taken_files')
    rt.pick_schedule(rng)
    ref = P.parse_built(P.build(obs, plain))
    rt.pick_schedule(rng)
    out = P.build(obs, src, 'build-index-raises', index=ifile, options=opts)
    q = P.parse_built(out)
    for f, what in P.differences(ref, q, ('versions',)):
        obs.violation('index-product:' + what.split(' ')[0], f'{f}: {what} (index {str(full)[:300]})')
    for w in P.consistency(out, q):
        obs.violation('index-product:bookkeeping', w)
    # what is edited at the new place is built
    code = [f for f in moved if f.endswith('.bsl')]
    for n, f in enumerate(rng.sample(sorted(code), min(3, len(code)))):
        text = f'// новый текст {n}\n'.encode()
        P.write(at(f), text)
        P.write(os.path.join(plain, f), text)
        obs.count('edited_moved')
    if code:
        rt.pick_schedule(rng)
        ref2 = P.parse_built(P.build(obs, plain))
        q2 = P.parse_built(P.build(obs, src, 'build-index-raises', index=ifile, options=opts))
        for f, what in P.differences(ref2, q2, ('versions',)):
            obs.violation('index-edit:' + what.split(' ')[0], f'{f}: {what}')
    obs.sig(kind, json.dumps(index, sort_keys=True))
    obs.sample(dict(product=kind, edits=done, index_entries=len(str(index)), moved=len(moved), descent=descent))
