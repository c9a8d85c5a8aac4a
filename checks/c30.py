"""C30: identifiers are kept in .id.json and are exchanged there; forms belong to the object they lie in."""
import copy
import json
import os
import re

from vlib import brace, env, forms, gen, kinds, meta, mutate, product as P, rt
from vlib.core import case_rng

META = dict(
    level='exploration', timeout=150,
    budget=dict(quick=150, thorough=1500),
    rule='real products, edited at random, are extracted with auto_include; then identifiers in .id.json files (own ones, '
         'the four of a processor) of some or all objects are replaced, and the type identifier of an owner of forms in '
         'its description; the built product must be the one before with new identifiers in place of the old at their '
         'places (file names, own description, contents of the parent, attributes of forms that have the type of their '
         'owner) and everything else as it was; extracted again it gives the sources with the new identifiers; without '
         'auto_include an identifier replaced everywhere in the sources must be replaced everywhere in the product; '
         'distinct = (product, identifiers exchanged)',
    require={'exchanged_uuid': 250, 'exchanged_manager': 16, 'exchanged_owner': 20, 'exchanged_command': 20,
             'bound_attributes': 25, 'exchanged_everywhere': 100, 'files_compared': 1500, 'distinct': 50},
    assumptions=['references to an object from other objects (contents of subsystems, default forms) are not part of it '
                 'and stay; the documentation asks the user to replace those'],
)
OWNERS = ('Catalog', 'Document', 'DataProcessor')
UUID = re.compile(r'[0-9a-f]{8}(?:-[0-9a-f]{4}){3}-[0-9a-f]{12}')
MANAGER = {'manager_uuid1': 1, 'manager_uuid2': 2, 'manager_uuid3': 7, 'manager_uuid4': 8}


def cases(tier, seed):
    weights = dict(erf=4, epf803=14, epf802=4, cfe=8, apamold=4, apam=6, cf16=24, cf=6)
    k = 1 if tier == 'quick' else 20
    i = 0
    for r in range(k):
        for name, n in weights.items():
            for j in range(n):
                yield dict(kind=name, seed=seed, i=i, everywhere=j % 3 == 2)
                i += 1


def id_files(src):
    return sorted(os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs if f.endswith('.id.json'))


def load(path):
    with open(path, encoding='utf-8') as f:
        return json.load(f)


def save(path, v, rng):
    with open(path, 'w', encoding='utf-8') as f:
        json.dump(v, f, ensure_ascii=rng.random() < 0.5, indent=rng.choice([None, 1, 2]))


def run(case, obs):
    rng = case_rng('C30', case['seed'], case['i'])
    p = rt.defuse(P.seed(case['kind']))
    mutate.some(p, rng, rng.randint(0, 3))
    if case['kind'] == 'epf803':
        own_forms(p, rng)
    (everywhere if case['everywhere'] else exchange)(case, obs, p, rng)


def own_forms(p, rng):
    """forms of the processor get the contents of other real forms, their attributes the type of the processor"""
    root = meta.root_uuid(p)
    owner = p.tree(root)[0][3][1][1][1]
    for k in forms.managed_names(p):
        if rng.random() < 0.6:
            t = copy.deepcopy(forms.stored()[rng.choice(sorted(x for x in forms.stored() if x.startswith('uf/')))])
            for x in forms.members(t[0], 3):
                pat = x[5] if len(x) > 5 else []
                if len(pat) > 1 and isinstance(pat[1], list) and pat[1][0] == ('s', '#') and rng.random() < 0.5:
                    pat[1][1] = owner
            p.set_tree(k, t)
    rt.defuse(p)


def rename_file(m, old, new):
    for k in list(m):
        if k == old or k.startswith(old + '.'):
            m[new + k[len(old):]] = m.pop(k)


def own_places(t, owner):
    """attributes of a managed form that have the type of the owner of the form"""
    for x in forms.members(t, 3):
        pat = x[5] if len(x) > 5 else None
        if isinstance(pat, list) and len(pat) > 1 and isinstance(pat[1], list) and len(pat[1]) > 1 \
                and pat[1][0] == ('s', '#') and pat[1][1] == ('a', owner):
            yield pat[1]


def bind(obs, q, objs, u, old, new, split):
    for c in objs[u].children:
        k = f'{c}.0'
        if c in split and isinstance(q.main.get(k), bytes):
            roots = brace.parse(P.strip_tail(brace.to_text(q.main[k])))
            n = 0
            for place in own_places(roots[0], old):
                place[1] = ('a', new)
                n += 1
            if n:
                q.set_tree(k, roots)
                obs.count('bound_attributes', n)


def exchange(case, obs, p, rng):
    opts = dict(auto_include=True)
    env.schedule('fifo')
    raw = p.dump(None, 1)
    for i in range(2):  # numbers of elements settle with the second extraction
        src = os.path.join(obs.tmp, f'ws{i}', 'src')
        P.extract(obs, raw, src, options=opts)
        raw = P.build(obs, src, options=opts)
    P.rmtree(src)
    P.extract(obs, raw, src, options=opts)
    before = P.read_dir(src)
    q = P.parse_built(raw)
    objs, root = meta.objects(q), meta.root_uuid(q)
    plan, split = [], set()  # split: managed forms the tool could split
    share = rng.choice([0.1, 0.5, 1])
    for path in id_files(src):
        v = load(path)
        kind = os.path.basename(path)[:-8]
        u = v['uuid']
        elem = path[:-8] + '.elem.json'
        if os.path.isfile(elem) and load(elem)['props']:
            split.add(u)
        new = {k: gen.uuid(rng) for k in v if rng.random() < share}
        if new:
            for k in v:
                if not meta.is_uuid(v[k]):
                    obs.violation('not-an-identifier', f'{os.path.relpath(path, src)}: {k} is {v[k]!r}')
                    return
            plan.append((kind, u, {k: v[k] for k in new}, new))
            v.update(new)
            save(path, v, rng)
        if kind in OWNERS and 'manager_uuid1' not in v and rng.random() < 0.6:
            plan.append(owner(path[:-8] + '.json', kind, u, ('header', 0, 1, 1), rng))
    rootfile = os.path.join(src, 'ExternalDataProcessor.json')
    if os.path.isfile(rootfile) and rng.random() < 0.7:
        plan.append(owner(rootfile, 'root', root, ('header', 0, 3, 1, 1, 1), rng))
    if not plan:
        return
    for kind, u, old, new in plan:
        obs.sig(case['kind'], u, tuple(sorted(new)))
    # what the product has to be: own places first, then the names of files and the lists of parents
    for kind, u, old, new in plan:
        holder = u if u in objs else None
        for k in new:
            if k == 'uuid':
                continue
            roots = q.tree(u)
            t = roots[0]
            where = [3, 1, 1, 1] if kind == 'root' else [1, 1] if k == 'owner' else [1, MANAGER[k]]
            for i in where[:-1]:
                t = t[i]
            if t[where[-1]] != ('a', old[k]):
                obs.violation('wrong-identifier', f'{kind} {u}: {k} is {old[k]} in the sources, the product has '
                              f'{P.brief(t[where[-1]])}')
                return
            t[where[-1]] = ('a', new[k])
            q.set_tree(u, roots)
            obs.count('exchanged_owner' if k == 'owner' else 'exchanged_manager')
            if k in ('owner', 'manager_uuid1'):
                bind(obs, q, objs, u, old[k], new[k], split)
    todo = {old['uuid']: new['uuid'] for kind, u, old, new in plan if 'uuid' in new}
    inline = []
    for u, n in todo.items():
        if u in objs:
            obs.count('exchanged_uuid')
            set_id(q, u, u, n)
            roots = q.tree(objs[u].parent)
            for lst in meta.include_lists(roots, set(q.main) | set(todo.values())):
                lst[2:] = [('a', n) if x == ('a', u) else x for x in lst[2:]]
            q.set_tree(objs[u].parent, roots)
        else:
            holders = [k for k, v in q.main.items() if k in objs and u.encode() in v
                       and meta.find_header(q.tree(k), u) is not None]
            if len(holders) != 1:
                obs.violation('wrong-identifier', f'{u} is in a file of identifiers, in the product {len(holders)} '
                              f'objects hold its description')
                return
            set_id(q, holders[0], u, n)
            obs.count('exchanged_command')
    for u, n in todo.items():
        rename_file(q.main, u, n)
    raw2 = P.build(obs, src, 'build-raises', options=opts)
    r = P.parse_built(raw2)
    rt.judge(obs, q, r, raw2)
    for f in sorted(set(P.read_dir(src)) ^ set(before)):
        obs.violation('sources-touched', f'{f} was added to or removed from the sources by a build')
    after = os.path.join(obs.tmp, 'again', 'src')
    want = P.read_dir(src)
    P.extract(obs, raw2, after, 'extract-raises', options=opts)
    got = P.read_dir(after)
    for f in sorted(set(got) | set(want)):
        a, b = want.get(f), got.get(f)
        if f.endswith('.json') and a and b:
            a, b = json.loads(a), json.loads(b)
            if isinstance(a, dict) and isinstance(b, dict):  # random ids, hashes
                for x in ('versions', 'configinfo'):
                    a.pop(x, None), b.pop(x, None)
        if a != b:
            obs.violation('sources-differ', f'{f} differs when the product with the new identifiers is extracted: '
                          f'{P.brief(a, 80)} -> {P.brief(b, 80)}')
            break
    obs.sample(dict(product=case['kind'], exchanged=len(plan)))


def owner(path, kind, u, where, rng):
    v = load(path)
    t = v
    for i in where[:-1]:
        t = t[i]
    old, new = t[where[-1]], gen.uuid(rng)
    t[where[-1]] = new
    save(path, v, rng)
    return kind, u, {'owner': old}, {'owner': new}


def set_id(q, holder, old, new):
    roots = q.tree(holder)
    h = meta.find_header(roots, old)
    if h is not None:
        h[1][2] = ('a', new)
        q.set_tree(holder, roots)


def everywhere(case, obs, p, rng):
    """without auto_include: replaced in all sources, an identifier is replaced in the whole product"""
    raw, src, out, q, modes = rt.roundtrip(obs, p, rng)
    texts = {}
    other = b''
    for d, _, fs in os.walk(src):
        for f in fs:
            path = os.path.join(d, f)
            with open(path, 'rb') as fd:
                data = fd.read()
            if f.endswith('.json') or f.endswith('.c1brace'):
                texts[path] = data
            else:
                other += data
    ids = [v for path in id_files(src) for v in load(path).values()]
    mp = {u: gen.uuid(rng) for u in ids if u.encode() not in other and rng.random() < 0.7}
    if not mp:
        return
    pat = re.compile('|'.join(mp).encode())
    for path, data in texts.items():
        new = pat.sub(lambda m: mp[m.group().decode()].encode(), data)
        if new != data:
            with open(path, 'wb') as f:
                f.write(new)
    obs.count('exchanged_everywhere', len(mp))
    obs.sig(case['kind'], 'all', tuple(sorted(mp)))
    want = q.copy()
    for i, (fmt, m) in enumerate(want.conts):
        want.conts[i] = (fmt, type(m)((mp.get(k[:36], k[:36]) + k[36:], mutate.subst(v, mp)) for k, v in m.items()))
    raw2 = P.build(obs, src, 'build-raises-everywhere')
    rt.judge(obs, want, P.parse_built(raw2), raw2, ':everywhere')
