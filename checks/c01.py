"""C01: writing a product's files into a binary container and reading them back loses nothing; the file is legal."""
import os

from vlib import cf, env, gen
from vlib.core import Violation, case_rng

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=200, thorough=1500),
    rule='random directories (1..2731 files, sizes around block boundaries, one or two containers) written with '
         'container_writer.build; the result is parsed by an independent strict reader and re-read with '
         'container_reader.extract; trees of folders (nested containers, up to five deep), with and without compression; '
         'distinct = (containers, TOC blocks, size-class multiset)',
    require={'files_compared': 500, 'distinct': 40, 'two_container_files': 5, 'multi_block_toc': 5,
             'folders': 30, 'folders_deeper': 10, 'deflated_trees': 10, 'plain_trees': 10},
    assumptions=['the independent reader implements the published v8 container layout'],
)

TOC32 = [1, 2, 41, 42, 43, 44, 84, 85, 86, 127, 128, 129, 170, 171]


def cases(tier, seed):
    n = 150 if tier == 'quick' else 1500
    for i in range(n):
        yield dict(kind='rt', seed=seed, i=i)
    big = [2730, 2731] if tier == 'quick' else [2730, 2731, 2732, 5461, 5462, 8192]
    for k in [671, 672, 673, 714] + ([] if tier == 'quick' else [1343, 1344, 2730, 5461]):
        yield dict(kind='big32', seed=seed, i=k, n=k)
    for k in big:
        yield dict(kind='big', seed=seed, i=k, n=k)
    for i in range(40 if tier == 'quick' else 400):
        yield dict(kind='tree', seed=seed, i=i)


def tree(rng, obs, depth=0):
    res = {}
    for name in gen.fnames(rng, rng.choice([1, 2, 3, 5, 43] if depth == 0 else [1, 2, 3])):
        if depth < 4 and rng.random() < (0.4 if depth else 0.3):
            res[name] = tree(rng, obs, depth + 1)
            obs.count('folders')
            depth and obs.count('folders_deeper')
        else:
            b = gen.blob(rng, gen.size(rng, big=False))
            res[name] = b'x' + b[1:] if b[:4] == b'\xff\xff\xff\x7f' else b
    return res


def plain(files, path=''):
    r = {}
    for k, v in files.items():
        r.update(plain(v, f'{path}{k}/') if isinstance(v, dict) else {path + k: v})
    return r


def opened(files, want, deflated, path=''):
    """What the independent reader finds in a written container, nested ones opened."""
    r = {}
    for k, v in files.items():
        try:
            v = cf.inflate(v) if deflated else v
            if isinstance(want.get(k), dict):
                inner = cf.read_file(v)
                assert len(inner) == 1, f'{len(inner)} containers'
                r.update(opened(inner[0]['files'], want[k], False, f'{path}{k}/'))
                continue
        except Exception as e:
            raise Violation('nested-illegal', f'{path}{k}: {e!r}')
        r[path + k] = v
    return r


def run_tree(case, obs):
    """Folders become nested containers, with and without compression of the outer files."""
    rng = case_rng('C01tree', case['seed'], case['i'])
    deflated = case['i'] % 2 == 1
    conts = [tree(rng, obs) for _ in range(1 + (rng.random() < 0.3))]
    src = obs.dir('src')
    for i, files in enumerate(conts):
        for name, data in plain(files).items():
            p = os.path.join(src, str(i), name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(data)
    out = os.path.join(obs.tmp, 'x.cf')
    try:
        env.container_writer.build(src, out, not deflated)
    except Exception as e:
        raise Violation('build-tree-raises', f'packing {sorted(plain(conts[0]))[:6]} failed: {e!r}')
    obs.count('deflated_trees' if deflated else 'plain_trees')
    try:
        got = cf.read_file(open(out, 'rb').read())
    except Exception as e:
        raise Violation('illegal-tree', f'{e}')
    obs.check(len(got) == len(conts), 'tree-container-count', f'{len(got)} containers instead of {len(conts)}')
    for g, files in zip(got, conts):
        compare(obs, 'tree-written', opened(g['files'], files, deflated), plain(files))
    dst = os.path.join(obs.tmp, 'dst')
    try:
        env.container_reader.extract(out, dst, deflated, True)
    except Exception as e:
        raise Violation('reread-tree-raises', f'own reader fails on own file: {e!r}')
    for i, files in enumerate(conts):
        have = {}
        d = os.path.join(dst, str(i))
        for path, _, names in os.walk(d):
            for n in names:
                with open(os.path.join(path, n), 'rb') as f:
                    have[os.path.relpath(os.path.join(path, n), d)] = f.read()
        compare(obs, 'tree-reread', have, plain(files))
    obs.sig('tree', deflated, [sorted((k.count('/'), len(v)) for k, v in plain(f).items())[:20] for f in conts])
    obs.sample(dict(case=case, deflated=deflated, files=sorted(plain(conts[0]))[:8]))


def run(case, obs):
    if case['kind'] == 'tree':
        return run_tree(case, obs)
    rng = case_rng('C01' + case['kind'], case['seed'], case['i'])
    two = rng.random() < 0.4 or case['kind'] == 'big'
    conts = []
    for c in range(2 if two else 1):
        if case['kind'] == 'big':
            n = case['n'] if c == 1 else 3
        elif case['kind'] == 'big32':
            n = case['n'] if c == 0 else 3
        else:
            n = rng.choice(TOC32) if rng.random() < 0.5 else rng.randint(1, 12)
        files = {}
        for name in gen.fnames(rng, n):
            files[name] = gen.blob(rng, gen.size(rng, big=n < 10) if case['kind'] == 'rt' else rng.randint(0, 40))
        conts.append(files)
    src = obs.dir('src')
    for i, files in enumerate(conts):
        d = obs.dir(f'src/{i}')
        for name, data in files.items():
            with open(os.path.join(d, name), 'wb') as f:
                f.write(data)
    out = os.path.join(obs.tmp, 'out', 'x.cf')
    try:
        env.container_writer.build(src, out, True)
    except Exception as e:
        raise Violation('build-raises', f'packing {[len(c) for c in conts]} files failed: {e!r}')
    raw = open(out, 'rb').read()
    two and obs.count('two_container_files')
    # oracle 1: independent strict parse
    try:
        got = cf.read_file(raw)
    except Exception as e:
        raise Violation('illegal-container' + ('-2' if two else ''),
                        f'file written for {[len(c) for c in conts]} files is not a legal container: {e}')
    if not obs.check(len(got) == len(conts), 'container-count', f'{len(got)} containers instead of {len(conts)}'):
        return
    for i, (g, files) in enumerate(zip(got, conts)):
        want_fmt = cf.Fmt32 if i == 0 else cf.Fmt64
        obs.check(g['fmt'] is want_fmt, 'format', f'container {i} written as {g["fmt"].name}')
        obs.check(g['count'] == len(files), 'header-count', f'header says {g["count"]} files, wrote {len(files)}')
        compare(obs, 'written', g['files'], files)
        if len(files) * g['fmt'].toc_entry.size > g['fmt'].toc_block:
            obs.count('multi_block_toc')
    # oracle 2: the product's own reader
    dst = os.path.join(obs.tmp, 'dst')
    try:
        env.container_reader.extract(out, dst, False, False)
    except Exception as e:
        raise Violation('reread-raises', f'own reader fails on own file: {e!r}')
    compare(obs, 'containers', {k: b'' for k in os.listdir(dst)}, {str(i): b'' for i in range(len(conts))})
    for i, files in enumerate(conts):
        d = os.path.join(dst, str(i))
        have = {}
        if os.path.isdir(d):
            for name in os.listdir(d):
                with open(os.path.join(d, name), 'rb') as f:
                    have[name] = f.read()
        compare(obs, 'reread', have, files)
    obs.sig([(len(f), len(f) * 12 // 512, sorted(min(len(d), 99999) for d in f.values())[:20]) for f in conts])
    obs.sample(dict(case=case, containers=[{k: len(v) for k, v in list(f.items())[:5]} for f in conts],
                    files=[len(f) for f in conts], bytes=len(raw)))


def compare(obs, what, have, want):
    obs.count('files_compared', len(want))
    miss, extra = sorted(set(want) - set(have)), sorted(set(have) - set(want))
    obs.check(not miss, f'{what}-missing', f'{len(miss)} of {len(want)} files lost, e.g. {miss[:3]}')
    obs.check(not extra, f'{what}-extra', f'unexpected files {extra[:3]}')
    for k in want:
        if k in have and have[k] != want[k]:
            obs.check(False, f'{what}-content', f'{k!r}: {len(want[k])} bytes in, {len(have[k])} out, '
                                                f'first difference at {first_diff(have[k], want[k])}')
            return
    obs.count('assertions')


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i
    return min(len(a), len(b))
