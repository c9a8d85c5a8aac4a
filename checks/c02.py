"""C02: every legal container layout is read completely and exactly."""
import os

from vlib import cf, env, gen
from vlib.core import Violation, case_rng
from checks.c01 import compare

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=200, thorough=1500),
    rule='an independent writer lays the documents out in every legal way (fragmented block chains, shuffled documents,'
         ' free space, bytes after the terminator of a file name, chained tables of contents, 32/64 bit, two '
         'containers back to back, other default block sizes); container_reader.extract must return exactly the '
         'stored names and bytes, also with inflating and recursive extraction; '
         'distinct = (layout options, files, fragments)',
    require={'files_compared': 500, 'distinct': 60, 'fragmented_docs': 100, 'two_container_files': 20, 'nested': 10},
    assumptions=['the independent writer implements the published v8 container layout'],
)


def cases(tier, seed):
    n = 260 if tier == 'quick' else 3000
    for i in range(n):
        yield dict(kind='layout', seed=seed, i=i)


def run(case, obs):
    rng = case_rng('C02', case['seed'], case['i'])
    two = rng.random() < 0.4
    deflated = rng.random() < 0.3
    conts = []
    raw = b''
    desc = []
    nested_names = {}
    for c in range(2 if two else 1):
        fmt = cf.Fmt32 if c == 0 else cf.Fmt64
        if not two and rng.random() < 0.15:
            fmt = cf.Fmt64
        n = rng.choice([1, 2, 41, 42, 43, 85, 86, 128]) if rng.random() < 0.35 else rng.randint(1, 12)
        if fmt is cf.Fmt64 and rng.random() < 0.03:
            n = rng.choice([2730, 2731, 2740])
        files = []
        plain = {}
        for name in gen.fnames(rng, n):
            data = gen.blob(rng, gen.size(rng, big=n < 8) if n < 300 else rng.randint(0, 30))
            stored = data
            if deflated:
                if n < 100 and rng.random() < 0.15:
                    # a file that is itself a container (module with its info and text)
                    inner = [(x, gen.blob(rng, gen.size(rng))) for x in gen.fnames(rng, rng.randint(1, 3))]
                    data = dict(inner)
                    stored = cf.deflate(cf.write_container(inner, cf.Fmt32, None))
                    obs.count('nested')
                else:
                    if data[:4] == b'\xff\xff\xff\x7f':
                        data = b'x' + data[1:]
                    stored = cf.deflate(data, rng.choice([1, 6, 9, 0]))
            files.append((name, stored))
            plain[name] = data
        lay = cf.Layout(rng, split=rng.choice([0, 0, 0.3, 0.9]), name_garbage=rng.random() < 0.4,
                        shuffle=rng.random() < 0.4, free_space=rng.choice([0, 0, 0.3]), pad=rng.random() < 0.7)
        block = 0x200 if rng.random() < 0.7 else rng.choice([0x100, 0x400, 0x800, 0x1000])
        if rng.random() < 0.2:
            block = 0x200
        b = cf.write_container(files, fmt, lay, block)
        got = cf.read_container(b)
        assert got['files'] == dict(files)
        raw += b
        obs.count('fragmented_docs', sum(1 for _ in files) if lay.split else 0)
        desc.append((fmt.name, n, lay.split, lay.name_garbage, lay.shuffle, lay.free_space, block))
        conts.append(plain)
    two and obs.count('two_container_files')
    path = os.path.join(obs.tmp, 'in.cf')
    with open(path, 'wb') as f:
        f.write(raw)
    dst = os.path.join(obs.tmp, 'dst')
    try:
        env.container_reader.extract(path, dst, deflated, deflated)
    except Exception as e:
        raise Violation('legal-layout-rejected' + ('-2' if two else ''), f'{desc}: {e!r}')
    compare(obs, 'containers', {k: b'' for k in os.listdir(dst)}, {str(i): b'' for i in range(len(conts))})
    for i, want in enumerate(conts):
        d = os.path.join(dst, str(i))
        have = read_tree(d)
        flat = {}
        for k, v in want.items():
            if isinstance(v, dict):
                for k2, v2 in v.items():
                    flat[k + '/' + k2] = v2
            else:
                flat[k] = v
        compare(obs, 'read', have, flat)
    obs.sig(desc, deflated)
    obs.sample(dict(case=case, layout=desc, deflated=deflated, bytes=len(raw)))


def read_tree(d):
    have = {}
    for dp, dn, fn in os.walk(d):
        for f in fn:
            p = os.path.join(dp, f)
            with open(p, 'rb') as fd:
                have[os.path.relpath(p, d)] = fd.read()
    return have
