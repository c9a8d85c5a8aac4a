"""C29 for ordinary forms: a panel named include_<path> is kept in a file of its own, one named includr_<path> takes its
elements and pages from there; with auto_include its data sources are bound by name to the form that reads it."""
import copy
import json
import os

from . import areas, brace, env, gen, oforms as O, product as P, rt
from .core import Violation
from checks import c12, c13

FORMS = ['fac12e1f', 'pages', '4cfb2c31']


def free_panels(t):
    """panels with elements, not below each other: [(key, element, parent)]"""
    out = []
    for key, e, par in O.walk(O.root(t)):
        if O.is_panel(e) and all(not key.startswith(k + '/') for k, _, _ in out):
            out.append((key, e, par))
    return out


def prop_name(t, x):
    return x[3 if t[0][1] == '26' else 4][1]


def run(case, obs, rng):
    auto = case['mode'] == 'auto'
    p = P.seed('epf802')
    k, roots = c12.base()[case['form']]
    c12.put(p, k, roots)
    others = [x for x, v in p.main.items() if isinstance(v, dict) and 'form' in v and x != k]
    rt.defuse(p)
    ra = c12.get(p, k)
    ta = ra[0]
    used, done = set(), []
    for _, e, _ in list(O.walk(O.root(ta))):  # areas are not nested (documented)
        if 'includ' in O.name(e):
            O.set_name(e, 'П_' + O.fresh(rng, used))
    for _ in range(rng.choice([0, 0, 1, 3, 6])):
        e = O.edit(ta, rng, used)
        if e:
            done.append(e)
    for par in list(O.panels(O.root(ta))):
        i = O.find_pages(O.desc(par))
        for y in O.desc(par)[i][2:] if i is not None else ():
            if 'includ' in y[6][1]:
                y[6] = ('s', 'С' + O.fresh(rng, used))
    for _, e, _ in list(O.walk(O.root(ta))):
        if 'includ' in O.name(e):
            O.set_name(e, 'П' + O.fresh(rng, used))
    for _ in range(rng.randint(0, 3)):  # something to find in the panels
        cand = free_panels(ta)
        leaves = [(key, e, par) for key, e, par in O.walk(O.root(ta)) if not O.is_panel(e)]
        if not cand or not leaves:
            break
        box = rng.choice(cand)[1]
        c = O.clone(ta, rng.choice(leaves)[1], O.fresh(rng, used), O.next_id(ta))
        O.set_page(c, rng.randrange(max(1, len(O.pages(box)))))
        O.set_kids(box, O.kids(box) + [c])
    if auto:
        O.repair(ta)
    chosen = free_panels(ta)
    if not chosen:
        return
    rng.shuffle(chosen)
    chosen = chosen[:rng.choice([1, 1, 2, 3])]
    keys = set()
    two = rng.random() < 0.7
    area = []
    for _, e, _ in chosen:
        key = areas.make_key(rng, keys, single=not two)
        O.set_name(e, 'include_' + key)
        area.append((key, e))
    second = rng.choice(others) if two else None
    tb = None
    if second:
        tb = copy.deepcopy(ta)
        rb = [tb] + c12.get(p, second)[1:]
        if auto:
            renumber(tb, rng)
        area_b = []
        for key, e in area:
            m = next(x for _, x, _ in O.walk(O.root(tb)) if O.is_panel(x) and O.name(x) == 'include_' + key)
            O.set_name(m, 'includr_' + key)
            stale(m, rng, used)
            area_b.append((key, m))
        c12.put(p, second, rb)
    c12.put(p, k, ra)
    opts, index, rename = ({'auto_include': True} if auto else {}), None, {}
    levels = 1
    if rng.random() < 0.25:
        opts['descent'] = 3000075
        levels = 2
        obs.count('with_descent')
    if rng.random() < 0.25:
        x = rng.choice(area)[0]
        rename[x] = areas.make_key(rng, keys, single=not two)
        index = P.write(os.path.join(obs.tmp, 'index.json'),
                        json.dumps({'Области include': rename}, ensure_ascii=False).encode())
        obs.count('renamed_by_index')
    top = os.path.join(obs.tmp, 'w')
    ws = os.path.join(top, 'a', 'b', 'c', 'd')
    src = os.path.join(ws, 'conf', 'src') if levels == 2 else os.path.join(ws, 'src')
    rt.pick_schedule(rng)
    P.extract(obs, p.dump(None, 1), src, options=opts or None, index=index)
    tree = P.read_dir(top)
    rel = os.path.relpath(src, top)
    v = opts.get('descent')
    ver = lambda name: c13.versioned_name(name, v) if v else name

    def folder_of(key):
        for f, d in tree.items():
            if f.startswith(rel) and '.id.' in os.path.basename(f) and key.rsplit('.', 1)[0].encode() in d:
                return os.path.dirname(os.path.relpath(f, rel)), os.path.basename(f).split('.')[0]
        raise Violation('form-missing', f'no folder for form {key}')

    fdir, stem = folder_of(k)
    places = {}
    for key, _ in area:
        d, f = areas.area_path(key, fdir, levels, rename)
        full = os.path.normpath(os.path.join(rel, d, f[:-4] + '.elem.json'))
        places[key] = ver(full) if full.startswith(rel + '/') else full
    stems = {folder_of(x)[1] for x in [k] + others}
    got = {f for f in tree if f.endswith('.json') and '.elem.' in os.path.basename(f)
           and os.path.basename(f).split('.')[0] not in stems}
    obs.check(got == set(places.values()), 'of:area-files',
              f'the areas {[a[0] for a in area]} are in {sorted(got)}, expected {sorted(places.values())}')
    if obs.violations:
        return
    for key, e in area:
        d = json.loads(tree[places[key]].decode('utf-8-sig'))
        want = [x for x, _, _ in O.walk(e, 'include_' + key)]
        have = [x[0] for x in c12.flat_tree(d['tree'], auto, 'include_' + key)]
        obs.check(sorted(have) == sorted(want) if auto else have == want, 'of:area-tree',
                  lambda: f'{key}: the file lists {P.brief(have, 400)}, the panel holds {P.brief(want, 400)}')
        obs.count('areas_written')
        obs.count('of_elements', len(want))
    main = json.loads(tree[os.path.join(rel, fdir, ver(stem + '.elem.json'))].decode('utf-8-sig'))
    left = [x for x in main['data'] for key, _ in area if f'include_{key}/' in x]
    obs.check(not left, 'of:area-left', f'{left[:3]} are still in the file of the form')

    def compare(what, tag):
        q = build(obs, src, rng, opts, index, 'build-raises' if tag == 'of' else 'build-raises:' + tag)
        form(obs, auto, ta, c12.get(q, k), tag, what)
        if second:
            form(obs, auto, reader(obs, ta, tb, area, area_b, auto), c12.get(q, second), tag + '-reader',
                 what + ' (the form that reads the areas)')
            obs.count('areas_read', len(area))
        return q

    compare('unedited', 'of')
    if obs.violations:
        return
    edits = []
    key, e = rng.choice(area)
    full = os.path.join(top, places[key])
    d = json.loads(tree[places[key]].decode('utf-8-sig'))
    for _ in range(rng.choice([1, 2, 3])):
        x = edit(rng, ta, key, e, d, auto, used)
        if x:
            edits.append(x)
    with open(full, 'w', encoding='utf-8') as f:
        json.dump(d, f, ensure_ascii=False, indent=rng.choice([None, 2]))
    obs.count('area_edits', len(edits))
    compare(f'after {edits} in the file of {key}', 'of-edit')
    if obs.violations:
        return
    obs.sig('of', case['form'], auto, tuple(a[0].count('_') for a in area), tuple(done), tuple(edits), bool(second))
    obs.sample(dict(form='ordinary ' + case['form'], areas=list(places.items()), second=bool(second), edits=edits,
                    options=opts))
    # --- something the areas need is missing
    if not second:
        return
    sdir, sstem = folder_of(second)
    needed = set()
    for f in places.values():
        with open(os.path.join(top, f), encoding='utf-8-sig') as fd:
            needed |= {x['prop'] for x in json.load(fd)['data'].values() if isinstance(x, dict) and x.get('prop')}
    ef = os.path.join(top, rel, sdir, ver(sstem + '.elem.json'))
    if needed and rng.random() < 0.6:
        name = rng.choice(sorted(needed))
        with open(ef, encoding='utf-8-sig') as f:
            j = json.load(f)
        j['props'][:] = [x for x in j['props'] if x['name'] != name]
        with open(ef, 'w', encoding='utf-8') as f:
            json.dump(j, f, ensure_ascii=False)
        what = f'props without {name}'
    else:
        f = rng.choice(sorted(places.values()))
        os.remove(os.path.join(top, f))
        what = f'without the file {f}'
    out = os.path.join(obs.tmp, '.out', 'missing.bin')
    os.makedirs(os.path.dirname(out), exist_ok=True)
    try:
        env.schedule('fifo')
        env.v8unpack.build(src, out, options=dict(opts), index=index)
    except Exception:
        obs.count('missing_detected')
    else:
        obs.violation('of:missing-silent:' + what.split(' ')[0], f'a form that reads an area is built {what}')


def build(obs, src, rng, opts, index, key):
    rt.pick_schedule(rng)
    return P.parse_built(P.build(obs, src, key, options=opts or None, index=index))


def form(obs, auto, want, got, tag, what):
    obs.count('forms_compared')
    got = got[0]
    want = copy.deepcopy(want)
    if auto:
        ok = O.consistent(want)
        obs.count('of_consistent', int(ok))
        a, b = O.canon(want), O.canon(got)
        if not ok:
            a, b = O.no_anchors(a), O.no_anchors(b)
        ids = [O.eid(e) for _, e, _ in O.walk(O.root(got))]
        obs.check(len(set(ids)) == len(ids), tag + ':ids', lambda: f'{what}: element ids repeat: {sorted(ids)}')
    else:
        a, b = want, got
    c12.diff(obs, a, b, tag, what)


def renumber(t, rng):
    """the other form has its attributes in other places"""
    props = t[2][2][1:]
    ids = [x[0][0][1] for x in props]
    new = ids[:]
    rng.shuffle(new)
    m = dict(zip(ids, new))
    for x in props:
        x[0][0] = ('a', m[x[0][0][1]])
    for x in t[2][3][1:]:
        if x[1][1][0][1] in m:
            x[1][1][0] = ('a', m[x[1][1][0][1]])


def stale(m, rng, used):
    """the copy of the panel in the form that reads it is outdated"""
    k = rng.random()
    kids = O.kids(m)
    if k < 0.2:
        O.set_kids(m, [])
    elif k < 0.4:
        rng.shuffle(kids)
        O.set_kids(m, kids)
    elif k < 0.6 and kids:
        O.set_name(rng.choice(kids), 'Старое' + O.fresh(rng, used))
    elif k < 0.8:
        i = O.find_pages(O.desc(m))
        if i is not None:
            rng.choice(O.desc(m)[i][2:])[6] = ('s', 'Старая' + O.fresh(rng, used))


def reader(obs, ta, tb, area, area_b, auto):
    """the form that reads the areas, as it has to be"""
    t = copy.deepcopy(tb)
    names_b = {prop_name(t, x): x[0][0] for x in t[2][2][1:]}
    names_a = {x[0][0][1]: prop_name(ta, x) for x in ta[2][2][1:]}
    at = 100000
    for (key, e), (_, _) in zip(area, area_b):
        m = next(x for _, x, _ in O.walk(O.root(t)) if O.is_panel(x) and O.name(x) == 'includr_' + key)
        if not auto:
            i = O.find_pages(O.desc(e))
            c = copy.deepcopy(e)
            O.set_kids(m, O.kids(c))
            if i is not None:
                O.desc(m)[i] = O.desc(c)[i]
            continue
        gone = {O.eid(x) for _, x, _ in O.walk(m)}
        t[2][3][1:] = [x for x in t[2][3][1:] if x[0][1] not in gone]
        c = copy.deepcopy(e)
        ids = {}
        for _, x, _ in O.walk(c):
            at += 1
            ids[O.eid(x)] = str(at)
        src = [copy.deepcopy(x) for x in ta[2][3][1:] if x[0][1] in ids]
        relabel(c, ids)
        for x in src:
            x[0] = ('a', ids[x[0][1]])
            n = names_a.get(x[1][1][0][1])
            if n is not None:
                x[1][1][0] = names_b[n]
                obs.count('links_rebound')
                obs.count('links_checked')
        t[2][3] += src
        end_m, end_c = O.index_in(O.desc(m))[1], O.index_in(O.desc(c))[1]
        O.desc(m)[2:end_m] = O.desc(c)[2:end_c]
        i = O.find_pages(O.desc(c))
        if i is not None:
            O.desc(m)[i] = O.desc(c)[i]
        O.set_kids(m, O.kids(c))
    if auto:
        here = {O.eid(x) for _, x, _ in O.walk(O.root(t))}
        t[2][3][1:] = [x for x in t[2][3][1:] if x[0][1] in here]
    t[2][3][0] = ('a', str(len(t[2][3]) - 1))
    return t


def relabel(panel, ids):
    def ref(x):
        return ('a', ids[x[1]]) if x[1] in ids else x

    for x in O.kids(panel):
        if O.is_panel(x):
            relabel(x, ids)
        for b, node, ln in O.links(x[-3]):
            ln[1] = ref(ln[1])
        for o, xs in O.holders(x[-3]):
            for y in xs:
                y[1] = ref(y[1])
        x[1] = ref(x[1])
    for xs in O.index_in(O.desc(panel))[0]:
        for y in xs:
            y[1] = ref(y[1])


def edit(rng, t, key, e, d, auto, used):
    """one edit of the file of an area, done to the panel e of the form as well"""
    lists = []
    pre = 'include_' + key

    def collect(panel, items, pre):
        pg = O.pages(panel)
        if auto:
            for n, page in enumerate(items or []):
                lists.append((panel, page['child'], f'{pre}/{page["name"]}', n))
                below(panel, page['child'], f'{pre}/{page["name"]}')
        else:
            lists.append((panel, items, None, None))
            below(panel, items, pre)

    def below(panel, items, pre):
        for x in items or []:
            if x['type'] == 'Panel':
                k = '/'.join(y for y in (pre, x.get('page'), x['name']) if y)
                sub = next(y for y in O.kids(panel) if O.name(y) == x['name'])
                collect(sub, x.get('child'), k)

    collect(e, d['tree'], pre)
    lists = [x for x in lists if x[1]]
    if not lists:
        return None
    panel, items, page, n = rng.choice(lists)
    by = {O.name(x): x for x in O.kids(panel)}
    if len(by) != len(O.kids(panel)):
        return None
    op = rng.choice(['shuffle', 'delete', 'text', 'copy'])
    if op == 'shuffle':
        rng.shuffle(items)
        mine = {id(by[x['name']]) for x in items}
        new = iter([by[x['name']] for x in items])
        O.set_kids(panel, [next(new) if id(x) in mine else x for x in O.kids(panel)])
        return op
    x = rng.choice(items)
    el = by[x['name']]
    suffix = '/' + x['name']
    dk = [y for y in d['data'] if y.endswith(suffix) and isinstance(d['data'][y], dict)
          and d['data'][y].get('id') == O.eid(el)]
    if len(dk) != 1 or O.is_panel(el):
        return None
    dk = dk[0]
    if op == 'delete':
        if auto and c12.referred(panel, el):
            return None
        items.remove(x)
        del d['data'][dk]
        O.set_kids(panel, [y for y in O.kids(panel) if y is not el])
        if auto:
            t[2][3][1:] = [y for y in t[2][3][1:] if y[0][1] != O.eid(el)]
            t[2][3][0] = ('a', str(len(t[2][3]) - 1))
            fix_index(panel)
        return op
    if op == 'text':
        raw = d['data'][dk]['raw']
        new = gen.text(rng, 1, 20, nl=False).replace('"', '')
        hit = texts(el)
        if not hit:
            return None
        path = rng.choice(hit)
        put(el, path, ('s', new))
        put(raw, path, f'"{new}"')
        return op
    if any(ln[1][1] == O.eid(el) for _, _, ln in O.links(el[-3])) or \
            any(y[1][1] == O.eid(el) for _, ys in O.holders(el[-3]) for y in ys):
        return None
    s = O.fresh(rng, used)
    before = list(t[2][3])
    c = O.clone(t, el, s, O.next_id(t))
    if not auto:
        t[2][3][:] = before
    items.insert(items.index(x) + 1, dict(x, name=x['name'] + s))
    y = copy.deepcopy(d['data'][dk])
    y['raw'][-2][1] = y['raw'][-2][1][:-1] + s + '"'
    y['raw'][1] = y['id'] = O.eid(c)
    d['data'][dk + s] = y
    new = O.kids(panel)
    new.insert(next(i for i, z in enumerate(new) if z is el) + 1, c)
    O.set_kids(panel, new)
    if auto:
        fix_index(panel)
    return op


def fix_index(p):
    d = O.desc(p)
    old, end = O.index_in(d)
    d[2:end] = [y for x in O.index_of(p) for y in [('a', str(len(x)))] + x]


def texts(e, path=()):
    out = []
    for i, x in enumerate(e):
        if isinstance(x, list):
            if not (len(path) == 0 and i == len(e) - 2):
                out += texts(x, path + (i,))
        elif x[0] == 's' and any('а' <= ch <= 'я' for ch in x[1]) and ' ' in x[1]:
            out.append(path + (i,))
    return out


def put(n, path, value):
    for i in path[:-1]:
        n = n[i]
    n[path[-1]] = value
