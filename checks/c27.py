"""C27: changes of different objects stay apart in the sources and merge file by file."""
import os

from vlib import meta, mutate, product as P, rt
from vlib.core import case_rng
from checks import c26

META = dict(
    level='exploration', timeout=180,
    budget=dict(quick=150, thorough=1500),
    rule='several independent edits (each of other objects: texts, modules, payloads, names, objects added, deleted '
         'or reordered) are applied to a real product, each alone and all together, and every state is extracted; the '
         'source files an edit changes must belong to the objects it changed, no two edits may change the same file, '
         'the sources of the whole must be the sources of the base with the changed files of every edit put in, and '
         'the build of that merge must be the product with all the edits; distinct = (product, edits)',
    require={'edits': 120, 'merges': 40, 'merged_files': 150, 'local_files': 150, 'distinct': 40, 'many': 15,
             'structure': 15},
    assumptions=['edits of one object (its own files and its list of children) are not merged with each other'],
)

OPS = [mutate.synonym, mutate.synonym, mutate.module, mutate.module, mutate.localized, mutate.localized,
       mutate.payload, mutate.raw_asset, mutate.comment, mutate.new_module, mutate.rename, mutate.clone, mutate.delete,
       mutate.reorder]
BOOK = ('versions', 'configinfo')


def cases(tier, seed):
    weights = dict(erf=3, epf803=6, epf802=4, cfe=4, apamold=3, apam=3, cf16=6, cf=2)
    k = 2 if tier == 'quick' else 40
    i = 0
    for r in range(k):
        for name, n in weights.items():
            for j in range(n):
                yield dict(kind=name, seed=seed, i=i)
                i += 1


def touched(p, q):
    return {k for k in set(p.main) | set(q.main) if k not in BOOK and p.main.get(k) != q.main.get(k)}


def ident(p, k):
    """object a product file belongs to; the root has two identifiers"""
    u = k.split('.')[0]
    r = meta.root_uuid(p)
    h = meta.find_header(p.tree(r), None)
    own = {r, 'root', c26.root_object(p)} | ({h[1][2][1]} if h else set())
    return r if u in own else u


def name_of(p, u):
    h = meta.find_header(p.tree(u), u)
    return h and h[2][1]


def below(p, objs, us):
    """these objects and everything in them; commands live in the file of their parent"""
    out = set(us)
    todo = list(us)
    files = {k.split('.')[0] for k in p.main} - set(objs) - {''}
    while todo:
        u = todo.pop()
        o = objs.get(u)
        if u in p.main:
            out |= {f for f in files if f.encode() in p.main[u]}
        for c in getattr(o, 'children', ()):
            if c not in out:
                out.add(c)
                todo.append(c)
    return out


def delta(a, b):
    """{path: new content or None}"""
    return {f: b.get(f) for f in set(a) | set(b) if a.get(f) != b.get(f)}


def run(case, obs):
    rng = case_rng('C27', case['seed'], case['i'])
    p = rt.defuse(P.seed(case['kind']))
    mutate.some(p, rng, rng.choice([0, 0, 3]))
    parts, used = [], set()
    objs = meta.objects(p)
    names = {}

    def ids(files):
        for k in files:
            if k not in names:
                names[k] = ident(p, k)
        return {names[k] for k in files}

    for _ in range(rng.choice([4, 6, 9])):
        q = p.copy()
        done = mutate.some(q, rng, rng.choice([1, 1, 1, 2]), OPS)
        t = touched(p, q)
        if not done or not t or ids(t) & ids(used):
            continue
        gone = {k.split('.')[0] for k in t if k not in q.main}
        moved = {k.split('.')[0] for k in t if k in q.main} & set(objs) \
            if any(x.startswith('rename ') for x in done) else set()
        moved = below(p, objs, {u for u in moved if name_of(p, u) != name_of(q, u)} | gone)
        if moved & ids(used) or any(ids(t) & x[3] for x in parts):
            continue  # a folder moved or deleted here and edited there
        gone = moved
        used |= t
        parts.append((done, t, q, gone))
        if len(parts) == 5:
            break
    whole = p.copy()
    for done, t, q, gone in parts:
        for k in t:
            if k in q.main:
                whole.main[k] = q.main[k]
            else:
                whole.main.pop(k, None)
    kin = [(o.parent, o.type, (o.name or '').lower()) for o in meta.objects(whole).values()]
    if len(parts) < 2 or len(set(kin)) < len(kin):  # names that meet
        return
    if len(parts) > 2:
        obs.count('many')

    def sources(x, name):
        src = os.path.join(obs.tmp, name, 'src')
        rt.pick_schedule(rng)
        P.extract(obs, x.dump(mutate.random_layout(rng), 1), src)
        return src, P.read_dir(src)

    base_src, base = sources(p, 'base')
    merged = dict(base)
    owner = {}
    where = c26.folders(base_src)
    for n, (done, t, q, gone) in enumerate(parts):
        src, tree = sources(q, f'e{n}')
        d = delta(base, tree)
        obs.count('edits')
        if gone or any(x.split(' ')[0] in ('clone', 'rename', 'reorder', 'delete') for x in done):
            obs.count('structure')
        now = c26.folders(src)
        mine = ids(t)
        homes = {w[u] for w in (where, now) for u in mine if u in w and w[u]}
        root = meta.root_uuid(p) in mine
        for f in sorted(d):
            obs.count('local_files')
            obs.count('assertions')
            if not any(f.startswith(h + '/') for h in homes) and not (root and '/' not in f):
                obs.violation('change-not-local', f'{done} changed {f}, the objects are at {sorted(homes)[:4]}')
            if f in owner:
                obs.violation('changes-overlap', f'{f} is changed by {done} and by {owner[f]}')
            owner[f] = done
            if d[f] is None:
                merged.pop(f, None)
            else:
                merged[f] = d[f]
            obs.count('merged_files')
        obs.check(bool(d), 'change-lost', f'{done}: no source file differs')
    if obs.violations:
        return
    src, tree = sources(whole, 'whole')
    for f, x in sorted(delta(merged, tree).items()):
        obs.violation('merge-differs', f'{f} of the whole is not what the edits made of it one by one '
                                       f'({[d for d, *_ in parts]})')
    m = os.path.join(obs.tmp, 'merged', 'src')
    for f, data in merged.items():
        P.write(os.path.join(m, f), data)
    rt.pick_schedule(rng)
    out = P.build(obs, m, 'build-raises:merged')
    obs.count('merges')
    rt.judge(obs, whole, P.parse_built(out), out, ':merged')
    obs.sig(case['kind'], str([d for d, *_ in parts]))
    obs.sample(dict(product=case['kind'], edits=[d for d, *_ in parts], files=sorted(owner)[:12]))
