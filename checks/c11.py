"""C11: a managed form split into elem.json loses nothing, and an edit of elem.json does to the form what it says."""
import copy
import json
import os

from vlib import brace, env, forms as F, mutate, product as P, rt
from vlib.core import Violation, case_rng

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=150, thorough=1500),
    rule='real managed forms of 14 platform layouts, edited at random at the level of the platform format (elements '
         'copied, moved, nested, deleted, reordered, groups emptied; properties, parameters and commands copied, '
         'deleted, reordered; captions replaced) are put into a processor, extracted, and the element files compared '
         'with an independent reading of the form; the built form must equal the original; then elem.json is edited '
         'the same ways and the built form must equal the form with that edit and nothing else; distinct = (form, '
         'edits)',
    require={'elements_compared': 1500, 'distinct': 60, 'elem_json_edits': 100, 'links_resolved': 200},
    assumptions=['element names are unique within their group, as the platform demands'],
)
TARGET = 'c611d632-eadf-4989-9e2e-f6042148db62.0'


def sources_of_forms():
    out = []
    for s in ('epf803', 'cf16', 'cf'):
        p = P.seed(s)
        for k in F.managed_names(p):
            t = brace.parse(P.strip_tail(brace.to_text(p.main[k])))
            if len(F.tree(t[0][1])) or F.members(t[0], 3):
                out.append((s + '/' + k, t))
    for k, t in F.stored().items():
        if k.startswith('uf'):
            out.append((k, t))
    return out


_forms = None


def all_forms():
    global _forms
    if _forms is None:
        _forms = sources_of_forms()
    return _forms


def cases(tier, seed):
    forms = all_forms()
    k = 3 if tier == 'quick' else 60
    i = 0
    for r in range(k):
        for n in range(len(forms)):
            yield dict(form=n, seed=seed, i=i, first=r == 0)
            i += 1
    for r in range(k * 3):
        for n in range(0, len(forms), 3):
            yield dict(form=(n + r) % len(forms), seed=seed, i=i, first=False, odd=True)
            i += 1


def elem_file(src, uuid):
    for dp, dn, fn in os.walk(src):
        for f in fn:
            if f.endswith('.id.json'):
                with open(os.path.join(dp, f), encoding='utf-8') as fd:
                    if json.load(fd).get('uuid') == uuid:
                        return os.path.join(dp, f[:-8] + '.elem.json')
    raise Violation('form-missing', f'no folder for form {uuid}')


def compare_elem(obs, e, t):
    """elem.json against an independent reading of the form"""
    want = F.tree(t[1])
    got = F.shape(e['tree'])
    obs.check(got == want, 'tree', lambda: f'elem.json shows {P.brief(got, 600)}, the form holds {P.brief(want, 600)}')
    keys = sorted(q for q, _ in F.paths(want))
    obs.count('elements_compared', len(keys))
    obs.check(sorted(e['data']) == keys, 'data',
              lambda: f'elem.json describes {sorted(set(e["data"]) ^ set(keys))[:6]} otherwise than the form')
    for i, part in ((3, 'props'), (4, 'params'), (5, 'commands')):
        items = F.members(t, i)
        obs.count('members_compared', len(items))
        got = [x['name'] for x in e[part] or []]
        obs.check(got == [F.name(x) for x in items], part, lambda: f'{part}: {got}, the form holds '
                                                                   f'{[F.name(x) for x in items]}')
        if part != 'params':
            got = [x['id'] for x in e[part] or []]
            obs.check(got == [F.ident(x) for x in items], part + ':id', lambda: f'{part}: ids {got}')
    plain = lambda q: '/'.join('include_' + x[8:] if x.startswith('includr_') else x for x in q.split('/'))
    shown = {plain(q): v for q, v in F.data_paths(t).items()}
    got = {plain(q): d['ПутьКДанным'] for q, d in e['data'].items() if d.get('ПутьКДанным')}
    obs.count('data_paths', len(shown))
    obs.check(got == shown, 'shown', lambda: f'elem.json: {P.brief(sorted(set(got.items()) - set(shown.items())), 300)} instead '
                                             f'of {P.brief(sorted(set(shown.items()) - set(got.items())), 300)}')
    ids = {F.ident(x): F.name(x) for x in F.members(t, 3)}
    commands = {F.ident(x): F.name(x) for x in F.members(t, 5)}
    for key, d in e['data'].items():
        if d.get('ПутьКДанным'):
            obs.count('links_resolved')
            first = d['ПутьКДанным'].split('.')[0]
            n = next((x for x in d['raw'] if isinstance(x, list) and len(x) > 1 and isinstance(x[1], list) and x[1]
                      and isinstance(x[1][0], str) and ids.get(x[1][0]) == first), None)
            obs.check(n is not None, 'link', f'{key} is said to show {d["ПутьКДанным"]}, its link says otherwise')
        if d.get('ИмяКоманды'):
            obs.count('links_resolved')
            n = next((x for x in d['raw'] if isinstance(x, list) and x and commands.get(x[0] if isinstance(
                x[0], str) else None) == d['ИмяКоманды']), None)
            obs.check(n is not None, 'link', f'{key} is said to run {d["ИмяКоманды"]}, its link says otherwise')


def read_form(q, name=TARGET):
    return brace.parse(P.strip_tail(brace.to_text(q.main[name])))


def compare_form(obs, want, got, key, what):
    obs.count('forms_compared')
    d = brace.diff(brace.norm(want), brace.norm(got), limit=4)
    obs.check(not d, key, lambda: f'{what}: ' + '; '.join(
        f'at {list(p)}: {P.brief(x, 120)} -> {P.brief(y, 120)}' for p, x, y in d))


def run(case, obs):
    rng = case_rng('C11', case['seed'], case['i'])
    p = P.seed('epf803')
    label, roots = all_forms()[case['form']]
    p.set_tree(TARGET, roots)
    rt.defuse(p)
    roots = read_form(p)
    t = roots[0]
    t0 = t[2]
    used = set()
    done = []
    rename = []
    if not case['first']:
        for _ in range(rng.choice([1, 3, 6, 12, 20])):
            if rng.random() < 0.2:
                F.edit_members(t, rng, used, done)
                continue
            e = F.some_edit(t[1], rng, used)
            if e:
                F.apply_raw(t[1], e)
                done.append(e['op'])
        for path, _ in list(F.paths(F.tree(t[1]))):
            if rng.random() < 0.1:  # children first would break the paths, so rename from the end
                rename.append(path)
        for path in reversed(rename):
            n = F.find(t[1], tuple(path.split('/')))
            n[F.name_pos(n)] = ('s', rng.choice(['А{}includr_Б', 'x{}include_y', 'Г{}includr_', 'П_{}', '_{}', 'Г{}1',
                                                 'Стр{}Includr_x', 'Г{}']).format(len(used) + rng.randrange(1000, 9999)))
            done.append('rename')
    for name in sorted(done):
        obs.count('form_edit_' + name.split(' ')[0])
    if rng.random() < 0.5 and not case['first']:
        for path in rng.sample(list(F.paths(F.tree(t[1]))), min(3, len(list(F.paths(F.tree(t[1])))))):
            mutate_strings(F.find(t[1], tuple(path[0].split('/'))), rng)
    if case.get('odd'):
        done.append(odd(t, rng))
        obs.count('odd_forms')
    p.set_tree(TARGET, roots)
    raw, src, out, q, modes = rt.roundtrip(obs, p, rng)
    rt.judge(obs, p, q, out)
    if case.get('odd'):
        obs.sig(label, tuple(done))
        return
    ef = elem_file(src, TARGET[:-2])
    with open(ef, encoding='utf-8') as f:
        elem = json.load(f)
    compare_elem(obs, elem, t)
    if obs.violations:
        return
    # --- the user edits elem.json
    model = read_form(q)
    user = []
    box = F.Elem(elem)
    if elem['tree']:
        for _ in range(rng.choice([1, 1, 2, 4, 8])):
            e = F.some_edit(model[0][1], rng, used)
            if e:
                F.apply_raw(model[0][1], e)
                box.apply(e)
                user.append(e['op'])
    # elements of shared groups find what they show by name: then nothing of it may go
    shared = any('includ' in x and ('ПутьКДанным' in y or 'ИмяКоманды' in y) for x, y in elem['data'].items()
                 if isinstance(y, dict))
    for i, part in ((3, 'props'), (4, 'params'), (5, 'commands')):
        items = F.members(model[0], i)
        if i == 3:  # columns of attributes
            for x, y in zip(items, elem[part] or []):
                if y.get('child') and rng.random() < 0.5:
                    n = len(y['child'])
                    perm = rng.sample(range(n), n if shared else rng.choice([0, 0, n // 2, n]))
                    cols = x[14:14 + n]
                    x[13:14 + n] = [('a', str(len(perm)))] + [cols[j] for j in perm]
                    y['child'] = [y['child'][j] for j in perm]
                    if not perm and rng.random() < 0.5:
                        del y['child']
                    user.append('columns')
        if len(items) > 0 and rng.random() < 0.5:
            perm = list(range(len(items)))
            rng.shuffle(perm)
            if rng.random() < 0.3 and not shared:
                perm = perm[:rng.choice([0, len(perm) - 1])]
            F.set_members(model[0], i, [items[j] for j in perm])
            elem[part][:] = [elem[part][j] for j in perm]
            user.append('reorder ' + part)
    with open(ef, 'w', encoding='utf-8') as f:
        json.dump(elem, f, ensure_ascii=False, indent=rng.choice([None, 1, 2]))
    rt.pick_schedule(rng)
    out2 = P.build(obs, src, 'build-raises:edited')
    q2 = P.parse_built(out2)
    compare_form(obs, model, read_form(q2), 'edit', f'after {user} in elem.json')
    for f, what in P.differences(q, q2, ignore=(TARGET,)):
        obs.violation('edit:elsewhere', f'after {user} in elem.json {f}: {what}')
    obs.count('elem_json_edits', len(user))
    obs.sig(label, tuple(done), tuple(user))
    obs.sample(dict(form=label, edits=done, elem_json_edits=user, elements=len(elem['data'])))


def odd(t, rng):
    """something no known version of a form holds"""
    k = rng.choice(['prop', 'prop', 'command', 'type', 'element', 'count'])
    items = F.members(t, 5 if k == 'command' else 3)
    if k == 'command' and items:
        x = rng.choice(items)
        x[1] = ('a', '7')
        return 'odd command'
    if k == 'prop' and items:
        for x in items:  # columns of a table
            if rng.random() < 0.7 and len(x) > 14 and x[13] == ('a', '0'):
                x[13:14] = [('a', '1'), [('a', '8'), ('a', '1'), ('a', '0'), ('s', 'Колонка'), [('a', '1'), ('a', '0')]]]
        x = rng.choice(items)
        how = rng.choice(['short', 'list', 'text'])
        if how == 'short':
            del x[rng.randint(4, 13):]
        elif how == 'list':
            x[13] = [('a', '0')]
        else:
            x[5] = ('s', 'Pattern')
        return 'odd prop ' + how
    nodes = []

    def walk(n):
        for i, x in enumerate(n):
            if F._type(x):
                nodes.append((n, i))
        for _, c in F.children(n):
            walk(c)

    walk(t[1])
    if not nodes:
        return 'none'
    n, i = rng.choice(nodes)
    if k == 'type':
        n[i] = ('a', '00000000-1111-4222-8333-444444444444')
    elif k == 'element':
        del n[i + 1][rng.randint(2, 6):]
    else:
        n[i + 1][3] = [('a', '1')]
    return 'odd ' + k


def mutate_strings(n, rng):
    from vlib import gen
    keep = F.name_pos(n)

    def walk(x, top):
        for i, y in enumerate(x):
            if isinstance(y, list):
                walk(y, False)
            elif y[0] == 's' and not (top and i == keep) and len(y[1]) > 2 and y[1] not in ('Pattern', '#') \
                    and rng.random() < 0.3 and any('а' <= c <= 'я' for c in y[1].lower()) and not _inside(x):
                x[i] = ('s', gen.text(rng, 1, 30))

    def _inside(x):
        return F.slot(x) is not None or F._type(x[0]) if x and isinstance(x[0], tuple) else False

    # strings of the element itself, not of its child elements
    kids = {id(c) for _, c in F.children(n)}
    for y in n:
        if isinstance(y, list) and id(y) not in kids:
            walk(y, False)
