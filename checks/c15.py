"""C15: the index generator adds exactly what the index lacks and keeps everything that is in it."""
import copy
import json
import os
import re
import sys

from vlib import env, gen, mutate, product as P, rt, watch
from vlib.core import case_rng
from checks import c13

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=120, thorough=1200),
    rule='index files (absent, empty, partly filled with own targets, nulls, entries for absent files, the service '
         'keys) are updated over random source trees and over real extracted products, also with files of several '
         'versions, through the function, the command line and the product file; the index written is compared with '
         'one computed from a listing, a second update must change nothing, added files must be added alone, no '
         'other file may change, a failing update must be reported and leave the index as it was; with a target '
         'folder the generated index must take every file there and build the same product; distinct = (tree, index)',
    require={'updates': 200, 'entries_added': 600, 'entries_kept': 600, 'files_versioned': 100, 'repeated': 70,
             'failures': 20, 'end_to_end': 8, 'cli': 40},
    assumptions=['an entry for a file is kept apart from the index of a folder (a name is not both)'],
)


def cases(tier, seed):
    k = 1 if tier == 'quick' else 15
    i = 0
    for r in range(k):
        for n in range(160):
            yield dict(kind='tree', seed=seed, i=i)
            i += 1
        for kind, n in dict(erf=3, epf803=4, epf802=2, cfe=3, apam=2, cf16=2).items():
            for j in range(n):
                yield dict(kind=kind, seed=seed, i=i)
                i += 1


EXTS = ['json', 'id.json', 'obj.bsl', 'bsl', 'elem.json', 'c1b64', 'ps1', 'bin', 'mgr.bsl', 'xml', 'html', 'txt']


def random_tree(obs, rng, root):
    """-> {relative name without a version}"""
    plain = set()

    def folder(rel, depth):
        os.makedirs(os.path.join(root, rel), exist_ok=True)
        used = set()
        for _ in range(rng.randint(0, 5)):
            stem = rng.choice([gen.ident(rng, 1, 10), 'Form', 'CatalogForm', '1', '12', gen.ident(rng, 1, 6) + ' 2', '.hid', '~tmp',
                               'a-b', '*', '__' + gen.ident(rng, 1, 3)])
            ext = rng.choice(EXTS)
            name = f'{stem}.{ext}' if rng.random() < 0.95 else stem
            if name in used:
                continue
            used.add(name)
            plain.add(os.path.join(rel, name))
            k = rng.random()
            names = [name]
            if k < 0.25 and '.' in name:
                ver = rng.sample(c13.NUMBERS, rng.randint(1, 3))
                a = name.rsplit('.', 1)
                names = [f'{a[0]}.{v}.{a[1]}' for v in ver] + ([name] if rng.random() < 0.5 else [])
                obs.count('files_versioned', len(ver))
            elif k < 0.3 and name.count('.') == 1:  # looks like a version and is not one
                a = name.rsplit('.', 1)
                odd = rng.choice(['007', '1a', '-', '1 ', '+1', '1_0', '0', '00'])
                plain.discard(os.path.join(rel, name))
                names = [f'{a[0]}.{odd}.{a[1]}']
                plain.add(os.path.join(rel, names[0]))
            for n in names:
                P.write(os.path.join(root, rel, n), rng.randbytes(3))
        if depth:
            for _ in range(rng.randint(0, 3)):
                d = rng.choice([gen.ident(rng, 1, 8), 'Form', 'Template', 'src', 'Области', '.git', '__x', 'a.b', '3000075'])
                if d not in used:
                    used.add(d)
                    folder(os.path.join(rel, d), depth - 1)

    folder('', rng.randint(0, 3))
    return plain


def dirs_of(root):
    return {os.path.relpath(os.path.join(b, d), root) for b, ds, _ in os.walk(root) for d in ds}


def expected(index, plain, dirs, dest):
    index = copy.deepcopy(index)
    added = 0
    for d in sorted(dirs):
        cur = index
        for x in d.split('/'):
            cur = cur.setdefault(x, {})
    for f in plain:
        cur = index
        *ds, b = f.split('/')
        for x in ds:
            cur = cur[x]
        if b not in cur:
            cur[b] = os.path.join(dest, f) if dest else ''
            added += 1
    return index, added


def preset(obs, rng, plain, dirs):
    index = {}
    for f in rng.sample(sorted(plain), min(len(plain), rng.randint(0, 6))):
        cur = index
        *ds, b = f.split('/')
        for x in ds:
            cur = cur.setdefault(x, {})
        cur[b] = rng.choice([None, '', 'core/' + b, '../x/Другой.json', 'a\\b'])
        obs.count('entries_kept')
    for _ in range(rng.randint(0, 4)):
        cur = index
        for _ in range(rng.randint(0, 2)):
            n = 'Нет' + gen.ident(rng, 1, 4)
            cur = cur.setdefault(n, {})
        cur['нет' + gen.ident(rng, 1, 4) + '.json'] = rng.choice([None, '', 'core/нет.json'])
        obs.count('entries_kept')
    if rng.random() < 0.3:
        index['index.json'] = ['sub/index.json', '/x/y.json']
        obs.count('entries_kept')
    if rng.random() < 0.3:
        index['Области include'] = {'core_А': 'core_Б', 'В': 'Г'}
        obs.count('entries_kept')
    items = list(index.items())
    rng.shuffle(items)
    return dict(items)


def dump(rng, index):
    return json.dumps(index, ensure_ascii=rng.random() < 0.3, indent=rng.choice([None, 2, 4])).encode()


def update(obs, rng, src, ifile, dest, base):
    """-> (error or None); through one of the three ways"""
    obs.count('updates')
    v = env.v8unpack
    way = rng.choice(['call', 'call', 'main', 'all'])
    prod = None
    if way == 'all':
        prod = P.write(os.path.join(base, 'product.json'), json.dumps(
            {'п1': {'src': src, 'bin': 'нет/x.epf', 'index': ifile, 'disable': rng.choice([False, None])},
             'п2': {'src': '/nonexistent', 'index': '/nonexistent/i.json', 'disable': True}}).encode())
    with watch.Watch() as w:
        try:
            if way == 'call':
                if dest is None and rng.random() < 0.5:
                    v.update_index(src, ifile)
                else:
                    v.update_index(src, ifile, dest)
            elif way == 'all':
                if dest is None and rng.random() < 0.5:
                    v.update_index_all(prod)
                else:
                    v.update_index_all(prod, None, dest)
            else:
                argv = sys.argv
                sys.argv = ['v8unpack', '-I', src, '--index', ifile] + (['--core', dest] if dest is not None else [])
                try:
                    code = v.main()
                finally:
                    sys.argv = argv
                obs.count('cli')
                if code:
                    raise RuntimeError(f'exit code {code}')
        except Exception as e:
            err = e
        else:
            err = None
    bad = w.outside([], [ifile])
    obs.check(not bad, 'update-writes', f'the update of an index changed {bad[:3]}')
    return err


def flat(d, pre=''):
    r = {}
    for k, v in d.items():
        if isinstance(v, dict):
            r[pre + k + '/'] = '{}'
            r.update(flat(v, pre + k + '/'))
        else:
            r[pre + k] = v
    return r


def compare(obs, got, want, key):
    a, b = flat(got), flat(want)
    for k in sorted(set(a) | set(b)):
        obs.count('assertions')
        if a.get(k, 'absent') != b.get(k, 'absent') or (k in a) != (k in b):
            obs.violation(key, f'entry {k!r}: {a.get(k, "absent")!r} instead of {b.get(k, "absent")!r}')
            return


def order(obs, start, got):
    """what follows a * and what precedes it are told apart by their order"""
    for k, v in start.items():
        if isinstance(v, dict) and isinstance(got.get(k), dict):
            order(obs, v, got[k])
    old = [k for k in got if k in start]
    obs.check(old == list(start), 'order-changed', lambda: f'the entries {list(start)} are now {old}')


def read(f):
    with open(f, 'rb') as h:
        return json.loads(h.read().decode('utf-8'))


def run(case, obs):
    rng = case_rng('C15', case['seed'], case['i'])
    env.schedule('fifo')
    os.chdir(obs.tmp)
    if case['kind'] != 'tree':
        return product(case, obs, rng)
    src = os.path.join(obs.tmp, 'w', 'src')
    plain = random_tree(obs, rng, src)
    dest = rng.choice([None, None, '', 'core', 'core/общие', '../x'])
    ifile = os.path.join(obs.tmp, 'w', 'index.json')
    start = preset(obs, rng, plain, dirs_of(src))
    if rng.random() < 0.2:
        start = {}
        if rng.random() < 0.6 or os.path.exists(ifile):
            pass
    if start or rng.random() < 0.3:
        P.write(ifile, dump(rng, start))
    if rng.random() < 0.25:
        return failing(obs, rng, src, plain, ifile, dest, start)
    # a path with a slash at the end and a relative path are the same folder
    arg = rng.choice([src, src, src + '/', os.path.relpath(src)])
    before = P.read_dir(src)
    err = update(obs, rng, arg, ifile, dest, obs.tmp)
    if err is not None:
        obs.violation('update-raises', P.err_text(err))
        return
    got = read(ifile)
    want, added = expected(start, plain, dirs_of(src), dest)
    obs.count('entries_added', added)
    compare(obs, got, want, 'index-differs')
    order(obs, start, got)
    obs.check(P.read_dir(src) == before, 'sources-changed', 'the sources were changed')
    # again, with another target: nothing is left to add
    raw = open(ifile, 'rb').read()
    err = update(obs, rng, arg, ifile, rng.choice([dest, 'other', None]), obs.tmp)
    obs.count('repeated')
    if err is not None:
        obs.violation('repeat-raises', P.err_text(err))
        return
    obs.check(open(ifile, 'rb').read() == raw, 'repeat-changes', 'a second update changes the index')
    # one more file (and a version of an old one): one more entry
    d = rng.choice([''] + sorted(dirs_of(src)))
    new = os.path.join(d, 'Новый.bsl')
    P.write(os.path.join(src, d, rng.choice(['Новый.bsl', 'Новый.3000075.bsl'])), b'')
    if plain and rng.random() < 0.5:
        f = rng.choice(sorted(plain))
        if '.' in os.path.basename(f):
            a = f.rsplit('.', 1)
            P.write(os.path.join(src, f'{a[0]}.4100200.{a[1]}'), b'')
    dest2 = rng.choice([dest, 'other', None])
    err = update(obs, rng, arg, ifile, dest2, obs.tmp)
    if err is not None:
        obs.violation('update-raises', P.err_text(err))
        return
    want, added = expected(want, plain | {new}, dirs_of(src), dest2)
    compare(obs, read(ifile), want, 'index-differs:added-file')
    obs.sig('tree', str(sorted(plain)), str(start))
    obs.sample(dict(files=len(plain), preset=len(flat(start)), added=added, dest=dest))


def failing(obs, rng, src, plain, ifile, dest, start):
    obs.count('failures')
    how = rng.choice(['json', 'nosrc', 'noindexdir', 'list', 'conflict'])
    if how == 'json':
        P.write(ifile, rng.choice([b'{"a": ', b'', b'\xff\xfe', b'{"a": 1,}', b'{"a": "\xd0']))
    elif how == 'list':
        P.write(ifile, rng.choice([b'[]', b'"a"', b'1', b'null']))
        if not os.listdir(src):
            P.write(os.path.join(src, 'a.json'), b'')
    elif how == 'nosrc':
        src = rng.choice([os.path.join(obs.tmp, 'нет'), P.write(os.path.join(obs.tmp, 'file'), b'')])
    elif how == 'noindexdir':
        ifile = os.path.join(obs.tmp, 'нет', 'index.json')
    else:  # an entry that is no folder for a folder with files
        P.write(os.path.join(src, 'Конфликт', 'a.json'), b'')
        start['Конфликт'] = rng.choice([None, '', 'core/Конфликт', 5, []])
        P.write(ifile, dump(rng, start))
    raw = open(ifile, 'rb').read() if os.path.exists(ifile) else None
    err = update(obs, rng, src, ifile, dest, obs.tmp)
    obs.check(err is not None, f'failure-silent:{how}', f'an update that cannot work ({how}) reports success')
    now = open(ifile, 'rb').read() if os.path.exists(ifile) else None
    obs.check(now == raw, f'failure-changes:{how}', f'a failed update ({how}) changed the index')
    obs.sig('fail', how, str(sorted(plain)))


def product(case, obs, rng):
    p = rt.defuse(P.seed(case['kind']))
    mutate.some(p, rng, 2)
    raw = p.dump(None, 1)
    plain = os.path.join(obs.tmp, 'plain', 'src')
    P.extract(obs, raw, plain)
    tree = P.read_dir(plain)
    ref = P.parse_built(P.build(obs, plain))
    ifile = os.path.join(obs.tmp, 'w', 'index.json')
    dest = rng.choice(['core', 'общее/к', '../core'])
    start = {}
    own = rng.choice(sorted(tree))
    if rng.random() < 0.5:
        cur = start
        *ds, b = own.split('/')
        for x in ds:
            cur = cur.setdefault(x, {})
        cur[b] = None
    else:
        own = None
    P.write(ifile, dump(rng, start))
    err = update(obs, rng, plain, ifile, dest, obs.tmp)
    if err is not None:
        obs.violation('update-raises', P.err_text(err))
        return
    made = read(ifile)
    numbered = {f for f in tree if re.fullmatch(r'Configuration\.(4|8|9|10)\.json', f) and f != own}
    for f in sorted(numbered):  # a known finding: the number of the file itself is taken for a version
        obs.check(f in made, f'own-number:{f}', f'{f} is not listed')
    want, added = expected(start, set(tree) - (numbered - set(made)), dirs_of(plain), dest)
    compare(obs, made, want, 'index-differs')
    obs.count('entries_added', added)
    stays = sorted((numbered - set(made)) | ({own} if own else set()))
    src = os.path.join(obs.tmp, 'w', 'src')
    P.extract(obs, raw, src, 'extract-index-raises', index=ifile)
    got = P.read_dir(src)
    obs.check(sorted(got) == stays, 'left-in-sources',
              f'with an index of all files these stay in the sources: {sorted(got)[:3]}')
    placed = P.read_dir(os.path.normpath(os.path.join(obs.tmp, 'w', dest)))
    rest = {f: d for f, d in tree.items() if f not in stays}
    obs.check(placed == rest, 'placed', f'the files are not where the index puts them: '
                                        f'{sorted(set(placed) ^ set(rest))[:3]}')
    q = P.parse_built(P.build(obs, src, 'build-index-raises', index=ifile))
    for f, what in P.differences(ref, q, ('versions',)):
        obs.violation('index-product:' + what.split(' ')[0], f'{f}: {what}')
    obs.count('end_to_end')
    obs.sig(case['kind'], own, dest)
