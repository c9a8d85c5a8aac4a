"""C31: the report of a failure names the file at fault."""
import contextlib
import io
import json
import os
import re
import sys

from vlib import cf, env, meta, mutate, product as P, rt
from vlib.core import case_rng
from checks import c26

META = dict(
    level='exploration', timeout=200,
    budget=dict(quick=150, thorough=1500),
    rule='one description or module of the sources of a real, edited product (or one inner file of the binary) is '
         'damaged: cut, emptied, broken in its syntax, mixed with bytes that are no text, cut in its packed form; when '
         'the build (extraction) fails, the text of the exception, or what the command line prints, must name the path '
         'of that file in the sources (the identifier of the object in the binary; the name of a missing or broken area file '
         'or index), the same each time it is shown; under chosen schedules and in real '
         'worker processes; distinct = (kind of file, damage)',
    require={'reports': 400, 'reports_of_descriptions': 200, 'reports_of_modules': 12, 'reports_of_inner_files': 60,
             'reports_of_packed': 60, 'reports_of_indexes': 30, 'reports_of_areas': 40, 'command_lines': 30, 'real_pools': 8, 'deep': 30, 'distinct': 60},
    assumptions=['damage after which the operation succeeds or that is a matter of meaning is judged by C04 and C17; '
                 'the root object and the bookkeeping files of a binary are not objects of their own'],
)
KINDS = dict(erf=3, epf803=5, epf802=4, cfe=5, apamold=2, apam=2, cf16=6, cf=2)
UUID = re.compile(r'[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}$')


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    i = 0
    for r in range(k):
        for what in ('build', 'extract'):
            for kind, n in KINDS.items():
                for j in range(n):
                    yield dict(what=what, kind=kind, seed=seed, i=i, real=j == 1)
                    i += 1


def attempt(obs, direction, a, b, n, index=None):
    """-> text of the report or None"""
    if n % 4 == 3:
        argv, out = sys.argv, io.StringIO()
        sys.argv = ['v8unpack', '-B' if direction == 'build' else '-E', a, b] + (['--index', index] if index else [])
        obs.count('command_lines')
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                try:
                    code = env.v8unpack.main()
                except SystemExit as e:
                    code = e.code
                except Exception as e:  # the shell would show it
                    return str(e)
        finally:
            sys.argv = argv
        return out.getvalue() if code else None
    try:
        getattr(env.v8unpack, direction)(a, b, index=index)
    except Exception as e:
        s = str(e)
        obs.check(str(e) == s, 'report-changes', f'the report read again is {str(e)[:300]!r}, it was {s[:300]!r}')
        return s


def spoil(rng, d, texts):
    """-> (damage, bytes)"""
    n = len(d) // 2
    alien = b'\xff\xfe\xff'
    all_ = [('alien-middle', d[:n] + alien + d[n:]), ('alien-end', d + alien)]
    if texts:
        all_ += [('cut', d[:rng.randint(max(1, len(d) // 4), max(2, len(d) - 3))]), ('empty', b'')]
    return rng.choice(all_)


def run(case, obs):
    rng = case_rng('C31', case['seed'], case['i'])
    p = rt.defuse(P.seed(case['kind']))
    done = mutate.some(p, rng, rng.choice([0, 2, 5]))
    if case['i'] % 2 and (d := mutate.deepen(p, rng)):
        done.append(d)
    env.use_real_pool = case['real']
    try:
        (builds if case['what'] == 'build' else extracts)(case, obs, rng, p)
    finally:
        env.use_real_pool = False
    obs.sample(dict(product=case['kind'], direction=case['what'], edits=done))


def builds(case, obs, rng, p):
    src, out = os.path.join(obs.tmp, 'ws', 'src'), os.path.join(obs.tmp, 'o.bin')
    P.extract(obs, p.dump(None, 1), src)
    tree = P.read_dir(src)
    names = sorted(f for f in tree if f.endswith(('.json', '.bsl')) and f != 'version.json')
    mods = [f for f in names if f.endswith('.bsl') and tree[f]]
    deep = [f for f in names if f.count('/') > 2]
    n = 5 if case['real'] else 14
    for k in range(n):
        pick = rng.random()
        f = rng.choice(mods if pick < 0.25 and mods else deep if pick < 0.6 and deep else names)
        what, data = spoil(rng, tree[f], f.endswith('.json'))
        P.write(os.path.join(src, f), data)
        rt.pick_schedule(rng)
        if case['real']:
            obs.count('real_pools')
        s = attempt(obs, 'build', src, out, k)
        P.write(os.path.join(src, f), tree[f])
        if s is None:
            continue
        obs.count('reports')
        obs.count('reports_of_modules' if f.endswith('.bsl') else 'reports_of_descriptions')
        if f.count('/') > 2:
            obs.count('deep')
        s = s.replace('\\\\', '/').replace('\\', '/')
        folder, name = os.path.split(f)
        obs.check(f in s or name in s and f'{folder}/' in s + '/', f'file-not-named:{what}',
                  f'{f} was damaged ({what}), the build failed with a report that does not name it: {s[:400]!r}')
        obs.sig('build', os.path.basename(f) if '.id' in f else f.split('/')[-1][-24:], what)
    indexes(obs, rng, src, out)
    areas(obs, rng, src, out, tree, mods)


def areas(obs, rng, src, out, tree, mods):
    """the file of an include area that is missing or no text"""
    for k in range(3 if mods else 0):
        m = rng.choice(mods)
        folder, name = f'Общее{rng.randrange(100)}', f'Код{rng.randrange(100)}'
        text = f'\n#Область include_{folder}_{name}\n#КонецОбласти\n'
        P.write(os.path.join(src, m), tree[m] + text.encode())
        if rng.random() < 0.6:
            P.write(os.path.join(os.path.dirname(src), folder, name + '.bsl'), b'A = 1;\n\xff\xfe\xff')
        rt.pick_schedule(rng)
        s = attempt(obs, 'build', src, out, k + 1)
        P.write(os.path.join(src, m), tree[m])
        if s is None:
            continue
        obs.count('reports')
        obs.count('reports_of_areas')
        obs.check(f'{folder}/{name}.bsl' in s.replace('\\', '/'), 'area-not-named',
                  f'{folder}/{name}.bsl, an area of {m}, is missing or no text: {s[:400]!r}')


def indexes(obs, rng, src, out):
    """an index that cannot be read, or one it refers to"""
    for k in range(2):
        inner, outer = (os.path.join(obs.tmp, f'{x}{rng.randrange(1000)}.json') for x in ('inner', 'outer'))
        bad = rng.choice([b'{"a": ', b'', b'[]', b'{"a": "\xff\xfe"}', None])
        good = json.dumps({'index.json': [inner]} if k else {}).encode()
        for f, data in ((inner, bad), (outer, good)) if k else ((outer, bad),):
            if data is not None:
                P.write(f, data)
        s = attempt(obs, 'build', src, out, rng.choice([0, 3]), index=outer)
        obs.check(s is not None, 'index-not-refused', f'built with an index that is {bad!r}')
        if s is not None:
            obs.count('reports_of_indexes')
            f = inner if k else outer
            obs.check(os.path.basename(f) in s, 'index-not-named', f'{"nested " * k}index {f} is {bad!r}: {s[:300]!r}')


def extracts(case, obs, rng, p):
    raw, src = os.path.join(obs.tmp, 'i.bin'), os.path.join(obs.tmp, 'ws', 'src')
    own = {meta.root_uuid(p), c26.root_object(p)}
    h = meta.find_header(p.tree(meta.root_uuid(p)), None)
    if h:
        own.add(h[1][2][1])
    names = sorted(k for k in p.main if UUID.match(k.split('.')[0]) and k.split('.')[0] not in own)
    texts = [k for k in names if isinstance(p.main[k], bytes) and p.main[k][:3] == b'\xef\xbb\xbf'
             and b'{' in p.main[k][:5]]
    if not names:
        return
    n = 4 if case['real'] else 10
    for k in range(n):
        if texts and rng.random() < 0.6:
            f = rng.choice(texts)
            what, data = spoil(rng, p.main[f], True)
            q = p.copy()
            q.main[f] = data
            blob, kind = q.dump(mutate.random_layout(rng), 1), 'inner_files'
        else:
            f = rng.choice(names)
            blob, kind, what = cut_packed(p, f, rng), 'packed', 'packed'
        P.write(raw, blob)
        rt.pick_schedule(rng)
        if case['real']:
            obs.count('real_pools')
        s = attempt(obs, 'extract', raw, src, k)
        if s is None:
            continue
        obs.count('reports')
        obs.count('reports_of_' + kind)
        u = f.split('.')[0]
        obs.check(u in s, f'object-not-named:{what}',
                  f'inner file {f} was damaged ({what}), the extraction failed with a report that does not name '
                  f'the object: {s[:400]!r}')
        obs.sig('extract', case['kind'], f, what)


def cut_packed(p, name, rng):
    out = b''
    for i, (fmt, m) in enumerate(p.conts):
        files = []
        for k, v in m.items():
            if isinstance(v, dict):
                v = cf.write_container(list(v.items()), cf.Fmt32)
            d = cf.deflate(v, 1)
            if k == name and i == len(p.conts) - 1:
                d = d[:rng.randint(1, max(1, len(d) - 2))] if rng.random() < 0.6 else b'\xff' + d[1:]
            files.append((k, d))
        out += cf.write_container(files, fmt, None)
    return out
