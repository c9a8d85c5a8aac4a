"""C20: the prefix option renames exactly the own top-level objects."""
from vlib import brace, env, gen, meta, mutate, product as P, rt
from vlib.core import Violation, case_rng

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=100, thorough=1000),
    rule='objects of real products get names with and without a prefix (nested and borrowed ones too); the product is '
         'extracted with one prefix (or none) and built with another (or none); the result must equal the original in '
         'which exactly the own top-level objects are renamed (prefix of the extraction off, prefix of the build on), '
         'and the name prefix of an extension is set; distinct = (product, prefixes)',
    require={'builds': 40, 'renamed_expected': 100, 'left_alone': 100, 'prefixed_nested': 10, 'prefixed_borrowed': 3},
    assumptions=['an object whose name is the prefix alone is refused'],
)
KINDS = {'epf803': 16, 'epf802': 10, 'erf': 12, 'cfe': 28, 'apam': 12, 'cf16': 12}
PREFIXES = ['сбис', 'Сбис_', 'x', 'A_', 'Пр1']


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    i = 0
    for r in range(k):
        for kind, n in KINDS.items():
            for j in range(n):
                yield dict(kind=kind, seed=seed, i=i)
                i += 1


def own(h):
    return len(h) < 6 or h[5] == ('a', '0')


def rename(p, u, name):
    def fn(h):
        h[2] = ('s', name)
    return mutate.set_header(p, u, fn)


def run(case, obs):
    rng = case_rng('C20', case['seed'], case['i'])
    p = rt.defuse(P.seed(case['kind']))
    root = meta.root_uuid(p)
    pre = rng.choice(PREFIXES)
    objs = mutate.objects(p)
    order = sorted(objs.values(), key=lambda o: o.uuid)
    taken = {(o.parent, o.type, o.name.lower()) for o in order}
    for o in order:
        if rng.random() < 0.5:
            n = pre + o.name
            # neither form of the name may be in use by a sibling
            if (o.parent, o.type, n.lower()) in taken or any(
                    x is not o and x.parent == o.parent and x.type == o.type
                    and x.name.lower() in (n.lower(), (pre + n).lower()) for x in order):
                continue
            if rename(p, o.uuid, n):
                taken.add((o.parent, o.type, n.lower()))
                o.name = n
    root_obj = meta.objects(p).get(root)
    if root_obj is not None and root_obj.header is not None and rng.random() < 0.6:
        rename(p, root, pre + root_obj.name)
    objs = mutate.objects(p)
    # names which differ by the prefix alone cannot live in one folder
    for o in list(objs.values()):
        if o.name.startswith(pre) and any(x is not o and x.parent == o.parent and x.type == o.type
                                          and x.name.lower() == o.name[len(pre):].lower() for x in objs.values()):
            obs.count('twins_skipped')
            return
        if o.name == pre:
            return
    a = rng.choice([pre, pre, pre, None, pre[:1]])
    b = rng.choice([a, a, a, pre, pre, None, None, rng.choice(PREFIXES), rng.choice(PREFIXES), ''])  # '' sets it empty
    want = p.copy()
    for o in objs.values():
        top = o.parent == root and own(o.header)
        if not top:
            obs.count('left_alone')
            if o.name.startswith(pre):
                obs.count('prefixed_nested' if o.parent != root else 'prefixed_borrowed')
            continue
        n = o.name
        if a and n.startswith(a) and n != a:
            n = n[len(a):]
        n = (b or '') + n
        if n != o.name:
            obs.count('renamed_expected')
            rename(want, o.uuid, n)
    if b is not None and case['kind'] == 'cfe':
        t = want.tree(root)
        t[0][3][1][1][42] = ('s', b)
        want.set_tree(root, t)
    raw = p.dump(None, 1)
    src = obs.dir('ws') + '/src'
    env.schedule('fifo')
    opts = dict(auto_include=False)
    P.extract(obs, raw, src, options=dict(prefix=a) if a else None)
    out = P.build(obs, src, options=dict(prefix=b) if b is not None else None)
    q = P.parse_built(out)
    rt.judge(obs, want, q, out, tag=f':{"e" if a else ""}{"b" if b else ""}')
    obs.sig(case['kind'], a, b, case['i'])
    obs.sample(dict(product=case['kind'], extracted_with=a, built_with=b))
