"""C21: compatibility version, product version and 'ver:' comments are set as asked, and nothing else changes."""
import os

from vlib import env, gen, meta, mutate, product as P, rt
from vlib.core import case_rng

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=120, thorough=1200),
    rule='real products (edited at random) are extracted and built with and without the version option, with version.bin '
         'absent, kept or edited, with and without a product name, and with "ver:" in the comments of the root and of '
         'data processors; the result must equal the original with exactly the predicted fields changed, also when one '
         'options dictionary serves several builds; distinct = (product, settings)',
    require={'builds': 60, 'compat_set': 15, 'version_set': 10, 'comment_set': 6, 'comment_kept': 10,
             'shared_options': 8},
    assumptions=['the version given has the form 803nn; version.bin holds a plain version number'],
)
KINDS = {'epf803': 20, 'epf802': 14, 'erf': 14, 'cfe': 36, 'apam': 12, 'cf16': 12}
CONFIG = '9cd510cd-abfc-11d4-9434-004095e12fc7'
DATA_PROCESSOR = 'bf845118-327b-4682-b5c6-285d2a0eb296'


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    i = 0
    for r in range(k):
        for kind, n in KINDS.items():
            for j in range(n):
                yield dict(kind=kind, seed=seed, i=i)
                i += 1


def kind_of(p, root):
    if 'configinfo' in p.main:
        return 'ext'
    t = p.tree(root)
    return 'conf' if t[0][3][0] == ('a', CONFIG) else 'epf'


COMPAT = dict(ext=43, conf=26)


def setf(p, root, i, v):
    t = p.tree(root)
    t[0][3][1][1][i] = v
    p.set_tree(root, t)


def set_comment(p, u, text):
    def fn(h):
        h[4] = ('s', text)
    return mutate.set_header(p, u, fn)


def version(rng):
    v = '.'.join(str(rng.randrange(0, 300)) for _ in range(rng.randint(1, 4)))
    return v + (rng.choice(['_1', '_rc2', '-beta', 'b1', '_a_b']) if rng.random() < 0.25 else '')


def compat(rng):
    return '803%02d' % rng.randrange(1, 28)


def run(case, obs):
    rng = case_rng('C21', case['seed'], case['i'])
    env.schedule('fifo')
    shared = dict() if rng.random() < 0.4 else None
    for step in range(rng.randint(2, 3) if shared is not None else 1):
        one(case if step == 0 else dict(case, kind=rng.choice(['epf803', 'erf', 'cfe', 'epf802'])), obs, rng, shared, step)


def one(case, obs, rng, shared, step):
    p = rt.defuse(P.seed(case['kind']))
    if rng.random() < 0.5:
        mutate.some(p, rng, 1)
    root = meta.root_uuid(p)
    kind = kind_of(p, root)
    objs = meta.objects(p)
    marks = [root] + [u for u, o in objs.items() if o.type == DATA_PROCESSOR and o.parent == root]
    comments = {}
    for u in marks:
        if objs[u].header is None:
            continue
        text = rng.choice(['просто', 'ver:', 'Загрузка ver:1.0', 'ver:a ver:b', 'overver:7:8', 'ver', 'VER:1',
                           'a; ver:'])
        if set_comment(p, u, text):
            comments[u] = text
    if kind == 'ext':
        setf(p, root, 15, ('s', rng.choice(['', version(rng)])))
    want = p.copy()
    e_opts, b_opts = {}, {} if shared is None else shared
    cver = None
    if kind in COMPAT:
        if rng.random() < 0.5:
            e_opts['version'] = cver = compat(rng)
        b_opts.pop('version', None)
        if rng.random() < 0.5:
            b_opts['version'] = cver = compat(rng)
        if cver:
            setf(want, root, COMPAT[kind], ('a', cver))
            obs.count('compat_set')
    else:
        if rng.random() < 0.3:  # of no effect for data processors
            e_opts['version'] = compat(rng)
            b_opts['version'] = compat(rng)
    if 'product' not in b_opts and rng.random() < 0.4:
        b_opts['product'] = rng.choice(['saby', 'Продукт_1'])
    auto = kind in COMPAT and shared is None and rng.random() < 0.3
    if auto:
        e_opts['auto_include'] = b_opts['auto_include'] = True
        obs.count('auto_include')
    raw = p.dump(None, 1)
    src = os.path.join(obs.tmp, f'ws{step}', 'src')
    given = dict(e_opts)
    path = P.write(os.path.join(obs.tmp, '.in', f'in{step}.bin'), raw)
    obs.count('extracts')
    try:
        env.v8unpack.extract(path, src, options=e_opts)
    except Exception as e:
        obs.violation('extract-raises', P.err_text(e))
        return
    obs.check(e_opts == given, 'options-changed', f'extract changed the options it was given: {e_opts}')
    vb = os.path.join(src, 'version.bin')
    obs.check(os.path.exists(vb) == (kind == 'ext'), 'version.bin', f'{kind}: version.bin exists: {os.path.exists(vb)}')
    ver = None
    if kind == 'ext':
        ver = open(vb, encoding='utf-8').read()
        obs.check(('s', ver) == p.tree(root)[0][3][1][1][15], 'version.bin:text', f'version.bin holds {ver!r}')
    if rng.random() < 0.6:
        ver = version(rng)
        with open(vb, 'w', encoding='utf-8') as f:
            f.write(ver)
    name = rng.choice(['p.bin', 'saby_vo3_83.epf', 'Обработка 1.epf'])
    if kind == 'ext':
        v = f'{b_opts["product"]}_{ver}' if b_opts.get('product') else ver
        setf(want, root, 15, ('s', v))
        obs.count('version_set')
    for u, text in comments.items():
        i = text.find('ver:')
        if ver and i >= 0 and (u != root or kind != 'conf'):
            new = text[:i] + 'ver:' + (f'{name}:{ver}' if u == root else ver)
            set_comment(want, u, new)
            obs.count('comment_set')
        else:
            obs.count('comment_kept')
    given = dict(b_opts)
    out = os.path.join(obs.tmp, f'out{step}', name)
    obs.count('builds')
    try:
        env.v8unpack.build(src, out, options=b_opts)
    except Exception as e:
        obs.violation('build-raises', P.err_text(e))
        return
    obs.check(b_opts == given, 'options-changed', f'build changed the options it was given: {b_opts}')
    if shared is not None:
        obs.count('shared_options')
    data = open(out, 'rb').read()
    q = P.parse_built(data)
    if auto:  # contents are listed anew: only the fields set are compared
        x, y = want.tree(root)[0][3][1][1], q.tree(root)[0][3][1][1]
        bad = [(i, x[i], y[i]) for i in range(min(len(x), len(y))) if x[i] != y[i] and not isinstance(x[i], list)]
        obs.check(len(x) == len(y) and not bad, f'values:auto:{kind}', lambda: f'fields of the root differ: {bad[:4]}')
    else:
        rt.judge(obs, want, q, data, tag=f':{kind}')
    obs.sig(case['kind'], sorted(e_opts), sorted(b_opts), ver is None, sorted(comments.values()))
    obs.sample(dict(product=case['kind'], extract=e_opts, build=b_opts, version_bin=ver))
