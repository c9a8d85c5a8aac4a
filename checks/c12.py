"""C12: an ordinary form split into elem.json loses nothing, with and without auto_include."""
import copy
import json
import os

from vlib import brace, env, forms as F, mutate, oforms as O, product as P, rt
from vlib.core import Violation, case_rng
from .c11 import elem_file

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=150, thorough=1500),
    rule='real ordinary forms (8.2 layout and an 8.1 rendering of it), edited at random at the level of the platform '
         'format (elements and panels copied, moved between panels and pages, renamed, deleted, reordered, pages '
         'renamed, texts replaced) are put into a processor, extracted and built: without auto_include the form must '
         'come back exactly; with auto_include it must come back with the same elements, pages, anchors and data '
         'sources up to the numbering of elements, and a second extraction must give the same sources; elem.json must '
         'list the elements an independent reading finds; elements copied, removed and reordered in elem.json must '
         'change the form accordingly; forms with an element of an unknown type must survive; distinct = (form, edits)',
    require={'elements_compared': 1500, 'distinct': 60, 'auto_include_forms': 40, 'elem_json_edits': 60,
             'unknown_type_forms': 5, 'anchors_compared': 500},
    assumptions=['with auto_include the anchors are compared where the original form is consistent (links stay inside '
                 'their panel), as the platform itself writes them'],
)
NAMES = ['01eae762', '4cfb2c31', '65c899e4', 'cf36ad72', 'fac12e1f']
_base = {}


def base():
    if not _base:
        p = P.seed('epf802')
        for k, v in p.main.items():
            if isinstance(v, dict):
                _base[k[:8]] = (k, brace.parse(brace.to_text(v['form'])))
        _base['pages'] = (_base['65c899e4'][0], F.stored()['of/pages'])
    return _base


def cases(tier, seed):
    k = 4 if tier == 'quick' else 80
    i = 0
    for r in range(k):
        for n in NAMES + ['pages']:
            for mode in ('plain', 'plain', 'auto', 'auto', 'unknown', 'unknown' if r % 2 else 'plain26'):
                yield dict(form=n, mode=mode, seed=seed, i=i, first=r == 0)
                i += 1


def put(p, k, roots):
    p.main[k]['form'] = b'\xef\xbb\xbf' + ',\r\n'.join(brace.dump(x) for x in roots).encode('utf-8')


def get(p, k):
    return brace.parse(P.strip_tail(brace.to_text(p.main[k]['form'])))


def flat_tree(items, auto, pre=''):
    """keys of elem.json's tree"""
    for x in items or []:
        if auto and x['type'] == 'Page':
            pg = f'{pre}/{x["name"]}' if pre else x['name']
            yield from _nodes(x['child'], auto, pg)
        else:
            yield from _nodes([x], auto, '/'.join(y for y in (pre, x.get('page')) if y))


def _nodes(items, auto, pre):
    for x in items:
        key = '/'.join(y for y in (pre, x['name']) if y)
        yield key, x['type']
        if x['type'] == 'Panel':
            yield from flat_tree(x.get('child'), auto, key)


def diff(obs, want, got, key, what):
    obs.count('forms_compared')
    d = brace.diff(brace.norm(want), brace.norm(got), limit=4)
    obs.check(not d, key, lambda: f'{what}: ' + '; '.join(
        f'at {list(p)}: {P.brief(x, 160)} -> {P.brief(y, 160)}' for p, x, y in d))


def run(case, obs):
    rng = case_rng('C12', case['seed'], case['i'])
    k, roots = base()[case['form']]
    p = P.seed('epf802')
    put(p, k, roots)
    rt.defuse(p)
    roots = get(p, k)
    t = roots[0]
    used, done = set(), []
    auto = case['mode'] == 'auto'
    if not case['first']:
        for _ in range(rng.choice([1, 3, 6, 12, 25])):
            e = O.edit(t, rng, used)
            if e:
                done.append(e)
    if rng.random() < 0.3:  # a field bound to an attribute of the object
        for x in t[2][3][1:]:
            if rng.random() < 0.3 and x[1][0] == ('a', '1'):
                x[1] = [('a', '2'), x[1][1], [('a', str(rng.randint(1, 99)))]]
                obs.count('deep_sources')
    if case['mode'] == 'plain26' and len(t[2][2]) > 1:
        O.to_26(t)
        obs.count('forms_26')
    if auto and done:
        O.repair(t)
    unknown = None
    if case['mode'] == 'unknown':
        els = list(O.walk(O.root(t)))
        if els:
            key, e, par = rng.choice(els)
            unknown = rng.choice(['type', 'type', 'geometry', 'name', 'page', 'props', 'pages', 'count'])
            done.append('odd ' + unknown)
            obs.count('unknown_type_forms')
            if unknown == 'type':
                e[0] = ('a', '00000000-1111-4222-8333-444444444444')
            elif unknown == 'geometry':
                del e[-3][rng.randint(3, 12):]
            elif unknown == 'name':
                e[-2] = [('a', '14')]
            elif unknown == 'page':
                set_ = rng.choice(['77', 'x', '1.5'])
                e[-3][-5] = ('a', set_)
            elif unknown == 'props' and len(t[2][2]) > 1:
                t[2][2][1 + rng.randrange(len(t[2][2]) - 1)] = [('a', '1')]
            elif unknown == 'pages':
                d = O.desc(O.root(t))
                i = O.find_pages(d)
                if i is not None:
                    del d[i][2][3:]
            elif unknown == 'count':
                O.elems(O.root(t))[0] = ('a', str(len(O.kids(O.root(t))) + 2))
            case = dict(case, mode=rng.choice(['unknown', 'unknown-auto']))
    for e in done:
        obs.count('form_edit_' + e)
    put(p, k, roots)
    opt = {'auto_include': True} if auto or case['mode'] == 'unknown-auto' else None
    raw, src, out, q, modes = rt.roundtrip(obs, p, rng, options=opt)
    built = get(q, k)
    ok = auto and O.consistent(t)
    if auto:
        obs.count('auto_include_forms')
        obs.count('consistent_forms', int(ok))
        a, b = O.canon(t), O.canon(built[0])
        if not ok:
            a, b = O.no_anchors(a), O.no_anchors(b)
        obs.count('anchors_compared', sum(1 for x in O.panels(O.root(t)) for y in O.kids(x)
                                          for _, _, ln in O.links(y[-3]) if ln[1][1] != '-1') if ok else 0)
        diff(obs, a, b, 'auto', f'with auto_include, after {done}')
        ids = [O.eid(e) for _, e, _ in O.walk(O.root(built[0]))]
        obs.check(len(set(ids)) == len(ids), 'auto:ids', lambda: f'element ids repeat: {sorted(ids)}')
        skip = [f for f in P.differences(p, q) if not f[0].endswith('/form')]
        for f, what in skip:
            if not f.endswith('f69e4632-3506-49b1-8b56-76e63d96ca27'):  # order of the table of contents: C22
                obs.violation('auto:elsewhere', f'{f}: {what}')
        # what was built is a fixed point
        src2 = os.path.join(obs.tmp, 'ws2', 'src')
        rt.pick_schedule(rng)
        P.extract(obs, out, src2, options=opt)
        s2 = P.read_dir(src2)
        again = P.build(obs, src2, options=opt)
        rt.pick_schedule(rng)
        src3 = os.path.join(obs.tmp, 'ws3', 'src')
        P.extract(obs, again, src3, options=opt)
        s3 = P.read_dir(src3)
        for f in sorted(set(s3) | set(s2)):
            if s2.get(f) != s3.get(f):
                obs.violation('auto:fixed-point', f'{f} differs after build and extract: {first_diff(s2, s3, f)}')
    elif opt:
        diff(obs, t, built[0], 'odd:auto', f'with auto_include, after {done}')
    else:
        rt.judge(obs, p, q, out)
    ef = elem_file(src, k[:-2])
    with open(ef, encoding='utf-8') as f:
        elem = json.load(f)
    if unknown or case['mode'] == 'plain26' and not O.find_pages(O.desc(O.root(t))):
        pass
    else:
        want = [x[0] for x in O.walk(O.root(t))]
        got = [x[0] for x in flat_tree(elem['tree'], auto)]
        obs.count('elements_compared', len(want))
        obs.check(sorted(got) == sorted(want) if auto else got == want, 'tree',
                  lambda: f'elem.json lists {P.brief(got, 500)}, the form holds {P.brief(want, 500)}')
        missing = set(want) | set(O.page_keys(O.root(t)))
        missing = {plain(x) for x in missing}
        keys = {plain(x) for x in elem['data'] if not x.endswith('-pages-')}
        obs.check(keys == missing, 'data', lambda: f'elem.json describes otherwise: {sorted(keys ^ missing)[:6]}')
        names = [x[3 if t[0][1] == '26' else 4][1] for x in t[2][2][1:]]
        obs.check([x['name'] for x in elem['props'] or []] == names, 'props', lambda: f'props {names}')
    if obs.violations or unknown:
        obs.sig(case['form'], case['mode'], tuple(done))
        return
    user = edit_elem(obs, case, rng, elem, ef, src, k, q, t, auto, opt, used)
    obs.sig(case['form'], case['mode'], tuple(done), tuple(user))
    obs.sample(dict(form=case['form'], mode=case['mode'], edits=done, elem_json_edits=user))


def plain(key):
    return key.replace('includr_', 'include_')


def first_diff(a, b, f):
    x, y = a.get(f, b''), b.get(f, b'')
    i = next((i for i, (c, d) in enumerate(zip(x, y)) if c != d), min(len(x), len(y)))
    return f'{x[max(0, i - 80):i + 80].decode("utf-8", "replace")} -> {y[max(0, i - 80):i + 80].decode("utf-8", "replace")}'


def edit_elem(obs, case, rng, elem, ef, src, k, q, t, auto, opt, used):
    """the user edits elem.json: reorder, remove, copy"""
    model = get(q, k)
    m = model[0]
    user = []
    r = O.root(m)
    if not O.kids(r):
        return user
    for _ in range(rng.choice([1, 2, 4])):
        op = rng.choice(['shuffle', 'delete', 'copy', 'copy'])
        # lists of elem.json with the panel and page they stand for
        lists = []

        def collect(items, pre):
            if auto:
                for pg in items or []:
                    if pg.get('type') != 'Page' or 'child' not in pg:
                        raise Violation('tree-without-pages', f'with auto_include the tree of a form holds '
                                        f'{P.brief(pg)} where a page belongs')
                    key = f'{pre}/{pg["name"]}' if pre else pg['name']
                    lists.append((pg['child'], pre, key))
                    for x in pg['child']:
                        if x['type'] == 'Panel':
                            collect(x.get('child'), f'{key}/{x["name"]}')
            else:
                lists.append((items, pre, None))
                for x in items or []:
                    if x['type'] == 'Panel':
                        collect(x.get('child'), '/'.join(y for y in (pre, x.get('page'), x['name']) if y))

        collect(elem['tree'], '')
        lists = [x for x in lists if x[0]]
        if not lists:
            break
        items, pre, pkey = rng.choice(lists)
        by = {key: (e, par) for key, e, par in O.walk(O.root(m))}

        def key_of(x):
            return f'{pkey}/{x["name"]}' if auto else '/'.join(y for y in (pre, x.get('page'), x['name']) if y)

        if op == 'shuffle':
            rng.shuffle(items)
            par = by[key_of(items[0])][1]
            mine = {id(by[key_of(x)][0]) for x in items}
            new = iter([by[key_of(x)][0] for x in items])
            O.set_kids(par, [next(new) if id(e) in mine else e for e in O.kids(par)])
            user.append('shuffle')
            continue
        x = rng.choice(items)
        key = key_of(x)
        e, par = by[key]
        if op == 'delete':
            if auto and (referred(par, e)):
                continue
            items.remove(x)
            for y in [y for y in elem['data'] if plain(y) == plain(key) or plain(y).startswith(plain(key) + '/')]:
                del elem['data'][y]
            O.set_kids(par, [y for y in O.kids(par) if y is not e])
            gone = {O.eid(e)} | ({O.eid(y) for _, y, _ in O.walk(e)} if O.is_panel(e) else set())
            if auto:
                m[2][3][:] = [m[2][3][0]] + [y for y in m[2][3][1:] if y[0][1] not in gone]
        else:
            if O.is_panel(e) or (auto and any(ln[1][1] == O.eid(e) for _, _, ln in O.links(e[-3]))) or \
                    any(y[1][1] == O.eid(e) for _, ys in O.holders(e[-3]) for y in ys):
                continue
            s = O.fresh(rng, used)
            before = list(m[2][3])
            c = O.clone(m, e, s, O.next_id(m))
            if not auto:  # the user's copy brings no data source of its own
                m[2][3][:] = before
            j = items.index(x)
            items.insert(j + 1, dict(x, name=x['name'] + s))
            dk = next(y for y in elem['data'] if plain(y) == plain(key))
            d = copy.deepcopy(elem['data'][dk])
            d['raw'][-2][1] = d['raw'][-2][1][:-1] + s + '"'
            d['raw'][1] = d['id'] = O.eid(c)
            elem['data'][dk + s] = d
            at = next(i for i, y in enumerate(O.kids(par)) if y is e)
            new = O.kids(par)
            new.insert(at + 1, c)
            O.set_kids(par, new)
        m[2][3][0] = ('a', str(len(m[2][3]) - 1))
        user.append(op)
    with open(ef, 'w', encoding='utf-8') as f:
        json.dump(elem, f, ensure_ascii=False, indent=rng.choice([None, 1, 2]))
    rt.pick_schedule(rng)
    out2 = P.build(obs, src, 'build-raises:edited', options=opt)
    q2 = P.parse_built(out2)
    obs.count('elem_json_edits', len(user))
    got = get(q2, k)
    if auto:
        a, b = O.canon(m), O.canon(got[0])
        a, b = O.no_anchors(a), O.no_anchors(b)
        diff(obs, a, b, 'edit:auto', f'after {user} in elem.json')
        if O.consistent(t):
            obs.check(O.consistent(got[0]), 'edit:anchors', f'after {user} in elem.json the anchors are inconsistent')
    else:
        m[2][3][0] = ('a', str(len(m[2][3]) - 1))
        diff(obs, model, got, 'edit', f'after {user} in elem.json')
    for f, what in P.differences(q, q2, ignore=('form',)):
        obs.violation('edit:elsewhere', f'after {user} in elem.json {f}: {what}')
    return user


def referred(par, e):
    mine = {O.eid(e)}
    for x in O.kids(par):
        if x is e:
            continue
        if any(ln[1][1] in mine for _, _, ln in O.links(x[-3])):
            return True
        if any(y[1][1] in mine for _, ys in O.holders(x[-3]) for y in ys):
            return True
    return False
