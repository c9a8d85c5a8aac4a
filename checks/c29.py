"""C29: a group of form elements named include_ / includr_ lives in a file of its own and is put back into every form."""
import copy
import json
import os

from vlib import areas, brace, env, forms as F, gen, meta, mutate, ofareas, product as P, rt
from vlib.core import Violation, case_rng
from checks import c11, c13

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=150, thorough=1500),
    rule='groups of real managed and ordinary forms are named include_<path> (kept in a file of their own) or '
         'includr_<path> (read from it); a second form of the product takes the groups of the first with its own, '
         'renumbered attributes and commands and with an outdated copy of the elements; the extraction must write '
         'exactly the files a model predicts, the build must give the first form back and the second with the '
         'elements of the file, linked to its attributes by name; the files are then edited and both forms must '
         'follow; a missing attribute, command or file must fail; with and without an index that renames areas, '
         'descent, other folders; distinct = (form, groups, options)',
    require={'areas_written': 60, 'areas_read': 40, 'links_rebound': 40, 'links_checked': 40, 'area_edits': 60, 'missing_detected': 15,
             'renamed_by_index': 4, 'with_descent': 5, 'forms_compared': 150, 'of_elements': 50, 'of_consistent': 5},
    assumptions=['an include_ area is written by one form only; include groups are not nested (documented)'],
)
TARGET = c11.TARGET


def cases(tier, seed):
    forms = [n for n, (label, t) in enumerate(c11.all_forms()) if groups(t[0])]
    k = 3 if tier == 'quick' else 40
    i = 0
    for r in range(k):
        for n in forms:
            for j in range(2):
                yield dict(kind='managed', form=n, seed=seed, i=i)
                i += 1
        for n in ofareas.FORMS:
            for j in range(8):
                yield dict(kind='ordinary', form=n, mode='auto' if j % 4 else 'plain', seed=seed, i=i)
                i += 1


def groups(t):
    """[(path, node)] of groups with at least one element"""
    out = []

    def walk(n, pre):
        for u, c in F.children(n):
            q = pre + (F.name(c),)
            if F._type(u) == 'Group' and F.children(c):
                out.append((q, c))
            walk(c, q)

    walk(t[1], ())
    return out


def set_name(n, s):
    n[F.name_pos(n)] = ('s', s)


def ids_of(t, i):
    return {F.name(x): F.ident(x) for x in F.members(t, i)}


def set_ident(x, v):
    if isinstance(x[1], list):
        x[1][0] = ('a', v)
    else:
        x[1] = ('a', v)


def renumber(t, rng, i):
    """the members of the other form have other numbers"""
    items = F.members(t, i)
    ids = [F.ident(x) for x in items]
    new = ids[:]
    rng.shuffle(new)
    for x, v in zip(items, new):
        set_ident(x, v)
    if rng.random() < 0.5:
        rng.shuffle(items)
        F.set_members(t, i, items)
    return {a: b for a, b in zip(ids, new)}


def stale(n, rng, used):
    """the copy of the group in the reading form is outdated"""
    i = F.slot(n)
    kids = F.children(n)
    k = rng.random()
    if k < 0.3:
        F.set_children(n, i, [])
    elif k < 0.6:
        kids = copy.deepcopy(kids)
        rng.shuffle(kids)
        F.set_children(n, i, kids[:rng.randint(0, len(kids))])
    else:
        for _ in range(3):
            e = F.some_edit(n, rng, used)
            if e:
                F.apply_raw(n, e)


def val(x):
    return x[1] if isinstance(x, tuple) and x[0] == 'a' else None


def clone_form(p, rng):
    """a second form beside the target -> its file"""
    before = set(p.main)
    u = TARGET[:-2]
    if not mutate.clone(p, rng, src=u, name='ВтораяФорма'):
        raise RuntimeError('no clone')
    new = [k for k in set(p.main) - before if k.endswith('.0') and F.is_managed(p, k)]
    assert len(new) == 1, new
    return new[0]


def run(case, obs):
    rng = case_rng('C29', case['seed'], case['i'])
    if case['kind'] == 'ordinary':
        return ofareas.run(case, obs, rng)
    p = P.seed('epf803')
    label, roots = c11.all_forms()[case['form']]
    p.set_tree(TARGET, roots)
    rt.defuse(p)
    ra = c11.read_form(p)
    used = set()
    for _ in range(rng.choice([0, 0, 2, 4])):
        e = F.some_edit(ra[0][1], rng, used)
        if e:
            F.apply_raw(ra[0][1], e)
    # --- areas of the first form
    cand = groups(ra[0])
    if not cand:
        return
    rng.shuffle(cand)
    chosen = []
    for path, n in cand:
        if all(path[:len(q)] != q and q[:len(path)] != path for q, _ in chosen):
            chosen.append((path, n))
            if len(chosen) == 3 or rng.random() < 0.4:
                break
    keys = set()
    two = rng.random() < 0.75
    area = []  # key, path of the group below its parent, node
    for path, n in chosen:
        key = areas.make_key(rng, keys, single=not two)  # a name alone is kept beside the form
        set_name(n, 'include_' + key)
        area.append([key, path[:-1], n])
    # --- the second form reads them
    p.set_tree(TARGET, ra)
    second = clone_form(p, rng) if two else None
    rb = None
    if second:
        rb = copy.deepcopy(ra)
        maps = [renumber(rb[0], rng, 3), renumber(rb[0], rng, 5)]
        area_b = []
        for key, parent, n in area:
            m = F.find(rb[0][1], parent + ('include_' + key,))
            set_name(m, 'includr_' + key)
            if rng.random() < 0.8:
                stale(m, rng, used)
            area_b.append([key, parent, m])
        p.set_tree(second, rb)
    opts, index, rename = {}, None, {}
    levels = 1
    if rng.random() < 0.25:
        opts['descent'] = 3000075
        levels = 2
        obs.count('with_descent')
    if rng.random() < 0.25:
        k = rng.choice(area)[0]
        rename[k] = areas.make_key(rng, keys, single=not two)
        index = P.write(os.path.join(obs.tmp, 'index.json'),
                        json.dumps({'Области include': rename}, ensure_ascii=False).encode())
        obs.count('renamed_by_index')
    raw = p.dump(None, 1)
    # the sources lie deep enough for areas that go up
    ws = os.path.join(obs.tmp, 'w', 'a', 'b', 'c', 'd')
    src = os.path.join(ws, 'conf', 'src') if levels == 2 else os.path.join(ws, 'src')
    rt.pick_schedule(rng)
    P.extract(obs, raw, src, options=opts or None, index=index)
    tree = P.read_dir(os.path.join(obs.tmp, 'w'))
    rel = os.path.relpath(src, os.path.join(obs.tmp, 'w'))

    def folder_of(uuid):
        for f, d in tree.items():
            if f.startswith(rel) and '.id.' in os.path.basename(f) and uuid.encode() in d:
                return os.path.dirname(os.path.relpath(f, rel)), os.path.basename(f)
        raise Violation('form-missing', f'no folder for form {uuid}')

    v = opts.get('descent')
    fdir, idname = folder_of(TARGET[:-2])
    stem = idname.split('.')[0]
    ver = lambda name: c13.versioned_name(name, v) if v else name

    def place(key):
        d, f = areas.area_path(key, fdir, levels, rename)
        f = f[:-4] + '.elem.json'
        full = os.path.normpath(os.path.join(rel, d, f))
        inside = full.startswith(rel + '/')
        return (ver(full) if inside else full)

    places = {key: place(key) for key, _, _ in area}
    got_area = {f for f in tree if f.endswith('.json') and '.elem.' in os.path.basename(f)
                and os.path.basename(f).split('.')[0] not in (stem, folder_of(second[:-2])[1].split('.')[0] if second else stem)}
    obs.check(got_area == set(places.values()), 'area-files',
              f'the areas {[a[0] for a in area]} are in {sorted(got_area)}, expected {sorted(places.values())}')
    if obs.violations:
        return
    # what the files show
    for key, parent, n in area:
        d = json.loads(tree[places[key]].decode('utf-8-sig'))
        want = F.tree(n)
        obs.check(F.shape(d['tree']) == want, 'area-tree',
                  lambda: f'{key}: the file shows {P.brief(F.shape(d["tree"]), 400)}, the group holds {P.brief(want, 400)}')
        obs.count('areas_written')
        pre = '/'.join(parent + ('include_' + key,)) + '/'
        shown = {q[len(pre):]: v for q, v in F.data_paths(ra[0]).items() if q.startswith(pre)}
        told = {q[len('include_' + key) + 1:]: x['ПутьКДанным'] for q, x in d['data'].items() if x.get('ПутьКДанным')}
        obs.count('data_paths', len(shown))
        obs.check(told == shown, 'area-links', lambda: f'{key}: {P.brief(sorted(set(told.items()) - set(shown.items())), 300)} '
                                                       f'instead of {P.brief(sorted(set(shown.items()) - set(told.items())), 300)}')
    main = json.loads(tree[os.path.join(rel, fdir, ver(stem + '.elem.json'))].decode('utf-8-sig'))
    for key, parent, n in area:
        for k in main['data']:
            obs.check(f'include_{key}/' not in k, 'area-left', f'{k} is still in the file of the form')
    # --- the build
    q = build(obs, src, rng, opts, index)
    want_a = ra
    c11.compare_form(obs, want_a, c11.read_form(q), 'form', 'the form with the areas')
    if second:
        want_b = reader(rb, area, area_b)
        links = links_of(tree[places[k]] for k in places)
        compare_reader(obs, want_b, c11.read_form(q, second), area_b, maps, 'reader', ra, links)
    if obs.violations:
        return
    # --- the user edits the file of an area
    key, parent, n = rng.choice(area)
    full = os.path.join(obs.tmp, 'w', places[key])
    d = json.loads(tree[places[key]].decode('utf-8-sig'))
    done = []
    if d['tree']:
        box = F.Elem(dict(tree=[dict(name='include_' + key, type='Group', child=d['tree'])], data=d['data']))
        for _ in range(rng.choice([1, 2, 4])):
            e = F.some_edit(n, rng, used)
            if not e:
                continue
            F.apply_raw(n, e)
            pre = ('include_' + key,)
            e = dict(e, path=pre + e['path'])
            if 'box' in e:
                e['box'] = pre + e['box']
            box.apply(e)
            done.append(e['op'])
    with open(full, 'w', encoding='utf-8') as f:
        json.dump(d, f, ensure_ascii=False, indent=rng.choice([None, 2]))
    obs.count('area_edits', len(done))
    q = build(obs, src, rng, opts, index, 'build-raises:edited')
    c11.compare_form(obs, ra, c11.read_form(q), 'edit', f'after {done} in the file of {key}')
    if second:
        with open(full, 'rb') as f:
            links.update(links_of([f.read()]))
        compare_reader(obs, reader(rb, area, area_b), c11.read_form(q, second), area_b, maps, 'edit-reader', ra, links)
    if obs.violations:
        return
    obs.sig(label, tuple(a[0].count('_') for a in area), tuple(done), str(opts), bool(index), bool(second))
    obs.sample(dict(form=label, areas=list(places.items()), second=bool(second), edits=done, options=opts))
    # --- what the areas need is missing
    if second:
        missing(obs, rng, src, tree, rel, second, area, places, opts, index, folder_of, ver)


def build(obs, src, rng, opts, index, key='build-raises'):
    rt.pick_schedule(rng)
    out = P.build(obs, src, key, options=opts or None, index=index)
    return P.parse_built(out)


def reader(rb, area, area_b):
    """the second form as it has to be: its groups hold the elements of the files"""
    for (_, _, n), (_, _, m) in zip(area, area_b):
        i = F.slot(m)
        if i is None:
            i = empty_slot(m, n)
        F.set_children(m, i, copy.deepcopy(F.children(n)))
    return rb


def empty_slot(m, n):
    """the position of the (zero) count of an emptied group: as far from the end as in its model"""
    i = F.slot(n)
    if i is not None:
        k = len(F.children(n))
        return len(m) - (len(n) - i - 2 * k)
    raise Violation('harness', 'no slot')


def compare_reader(obs, want, got, area_b, maps, key, ra, links):
    obs.count('forms_compared')
    paths = [p for p, _ in spots(want, [id(m) for _, _, m in area_b])]
    bad = []
    rebound = 0
    for path, x, y in brace.diff(brace.norm(want), brace.norm(got), limit=400):
        inside = any(tuple(path[:len(s)]) == tuple(s) for s in paths)
        if inside and val(x) is not None and any(m.get(val(x)) == val(y) for m in maps):
            rebound += 1
        else:
            bad.append((path, x, y))
    obs.count('links_rebound', rebound)
    obs.count('areas_read', len(area_b))
    obs.check(not bad, key, lambda: 'the form that reads the areas: ' + '; '.join(
        f'at {list(p)}: {P.brief(x, 120)} -> {P.brief(y, 120)}' for p, x, y in bad[:4]))
    if bad:
        return
    # the links name the same attributes and commands as in the form the areas come from
    t, g = want[0], got[0]
    for i in (3, 5):
        obs.check([F.ident(x) for x in F.members(t, i)] == [F.ident(x) for x in F.members(g, i)], key + ':ids',
                  'attributes or commands were renumbered')
    # ... which takes a new number wherever the two forms number them differently
    first = [{F.name(x): F.ident(x) for x in F.members(ra[0], i)} for i in (3, 5)]
    for _, parent, m in area_b:
        w = F.find(t[1], parent + (F.name(m),))
        h = F.find(g[1], parent + (F.name(m),))
        pre = 'include_' + F.name(m)[8:]
        for (path, x), (_, y) in zip(elements(w, pre), elements(h, pre)):
            expect = []
            for i, v in enumerate(links.get(path, ())):
                if v:
                    a = first[i].get(v.split('.')[0] if i == 0 else v)
                    if a is not None and maps[i].get(a, a) != a:
                        expect.append(v)
            own = [d for d in brace.diff(brace.norm(x), brace.norm(y), limit=400) if d[0][:1] not in kid_places(x)]
            obs.count('links_checked', len(expect))
            obs.check(len(own) >= len(expect), key + ':link', f'{path} keeps the number {expect} has in the other form')


def kid_places(n):
    i = F.slot(n)
    return {(j,) for j in range(i, i + 1 + 2 * len(F.children(n)))} if i is not None else set()


def elements(n, pre):
    for _, c in F.children(n):
        q = pre + '/' + F.name(c)
        yield q, c
        yield from elements(c, q)


def links_of(files):
    r = {}
    for d in files:
        for k, x in json.loads(d.decode('utf-8-sig'))['data'].items():
            r[k] = (x.get('ПутьКДанным'), x.get('ИмяКоманды'))
    return r


def spots(tree, marks, path=()):
    if isinstance(tree, list):
        if id(tree) in marks:
            yield path, tree
        for i, x in enumerate(tree):
            yield from spots(x, marks, path + (i,))


def missing(obs, rng, src, tree, rel, second, area, places, opts, index, folder_of, ver):
    sdir, sid = folder_of(second[:-2])
    ef = os.path.join(obs.tmp, 'w', rel, sdir, ver(sid.split('.')[0] + '.elem.json'))
    with open(ef, encoding='utf-8-sig') as f:
        e = json.load(f)
    needed = set()
    for key, f in places.items():
        with open(os.path.join(obs.tmp, 'w', f), encoding='utf-8-sig') as fd:
            d = json.load(fd)
        for x in d['data'].values():
            if x.get('ПутьКДанным'):
                needed.add(('props', x['ПутьКДанным'].split('.')[0]))
            if x.get('ИмяКоманды'):
                needed.add(('commands', x['ИмяКоманды']))
    k = rng.choice(['member', 'member', 'file'])
    if k == 'member' and needed:
        part, name = rng.choice(sorted(needed))
        e[part][:] = [x for x in e[part] if x['name'] != name]
        with open(ef, 'w', encoding='utf-8') as f:
            json.dump(e, f, ensure_ascii=False)
        what = f'{part} without {name}'
    else:
        f = rng.choice(sorted(places.values()))
        os.remove(os.path.join(obs.tmp, 'w', f))
        what = f'without the file {f}'
    out = os.path.join(obs.tmp, '.out', 'missing.bin')
    os.makedirs(os.path.dirname(out), exist_ok=True)
    try:
        env.schedule('fifo')
        env.v8unpack.build(src, out, options=dict(opts), index=index)
    except Exception:
        obs.count('missing_detected')
    else:
        obs.violation('missing-silent:' + what.split(' ')[0], f'a form that reads an area is built {what}')
