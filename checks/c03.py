"""C03: the packed layer (deflate of every file, nested containers) is lossless in both directions."""
import os

from vlib import cf, env, gen
from vlib.core import Violation, case_rng
from checks.c01 import compare
from checks.c02 import read_tree

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=200, thorough=1500),
    rule='random one/two-container directories (plain files and folders up to four deep that become nested containers, sizes '
         'around the 512/8192 transfer chunks) packed with compress_and_build, checked by inflating with an '
         'independent reader, then unpacked with decompress_and_extract; also packed by an independent deflater with '
         'other levels/flush points; distinct = (direction, sizes, nested)',
    require={'files_compared': 500, 'distinct': 60, 'nested': 30, 'nested_deeper': 20, 'foreign_streams': 200, 'dense_files': 300},
)
CH = [0, 1, 3, 4, 5, 510, 511, 512, 513, 1023, 1024, 1025, 8190, 8191, 8192, 8193, 16383, 16384, 16385, 24576, 70000]


def cases(tier, seed):
    n = 160 if tier == 'quick' else 2000
    for i in range(n):
        yield dict(kind=('pack', 'unpack')[i % 2], seed=seed, i=i)
        if i % 16 == 0:
            yield dict(kind='dense', seed=seed, i=i)


def payload(rng):
    sz = rng.choice(CH) if rng.random() < 0.6 else rng.randint(0, 30000)
    b = gen.blob(rng, sz)
    if rng.random() < 0.06:  # the mark of a container everywhere but at the start
        b = b'x' * rng.randint(1, 7) + b''.join(b'\xff\xff\xff\x7f' + rng.randbytes(4)
                                               for _ in range(rng.randint(100, 20000)))
    if b[:4] == b'\xff\xff\xff\x7f':
        b = b'x' + b[1:]
    return b


def make(rng, obs, allow_nested=True):
    conts = []
    for c in range(2 if rng.random() < 0.3 else 1):
        files = {}
        for name in gen.fnames(rng, rng.randint(1, 10)):
            if allow_nested and rng.random() < 0.25:
                files[name] = folder(rng, obs)
                obs.count('nested')
            else:
                files[name] = payload(rng)
        conts.append(files)
    return conts


def folder(rng, obs, depth=1):
    res = {}
    for x in gen.fnames(rng, rng.randint(1, 4)):
        if depth < 4 and rng.random() < 0.2:
            res[x] = folder(rng, obs, depth + 1)
            obs.count('nested_deeper')
        else:
            res[x] = payload(rng)
    return res


def flat(files):
    r = {}
    for k, v in files.items():
        if isinstance(v, dict):
            r.update({f'{k}/{k2}': v2 for k2, v2 in flat(v).items()})
        else:
            r[k] = v
    return r


def opened(path, data, want):
    """Files of a nested container read by the independent reader."""
    try:
        inner = cf.read_file(data)
        assert len(inner) == 1
    except Exception as e:
        raise Violation('packed-nested-illegal', f'{path}: {e!r}')
    res = {}
    for k, v in inner[0]['files'].items():
        if isinstance(want.get(k), dict):
            res.update({f'{k}/{a}': b for a, b in opened(f'{path}/{k}', v, want[k]).items()})
        else:
            res[k] = v
    return res


def closed(rng, files):
    lay = cf.Layout(rng, split=rng.choice([0, 0.5]), shuffle=rng.random() < 0.3, name_garbage=rng.random() < 0.3)
    return cf.write_container([(k, closed(rng, v) if isinstance(v, dict) else v) for k, v in files.items()],
                              cf.Fmt32, lay)


def foreign(rng, data):
    """A legal raw deflate stream made by another writer: other levels, strategies and flush points."""
    import zlib
    c = zlib.compressobj(rng.choice([0, 1, 6, 9]), zlib.DEFLATED, -rng.choice([9, 12, 15]), rng.choice([1, 9]),
                         rng.choice([0, 1, 2, 3, 4]))
    out = b''
    p = 0
    while p < len(data):
        n = rng.choice([1, 4, 100, 512, 5000, 1 << 20])
        out += c.compress(data[p:p + n])
        p += n
        k = rng.random()
        if k < 0.05:
            out += c.flush(zlib.Z_SYNC_FLUSH)
        elif k < 0.1:
            out += c.flush(zlib.Z_FULL_FLUSH)
        if rng.random() < 0.02 and len(out) < 60000:  # a run of empty stored blocks is legal deflate
            for _ in range(rng.choice([1, 50, 3600])):
                out += c.flush(zlib.Z_FULL_FLUSH)
                out += b'\x00\x00\x00\xff\xff' if out.endswith(b'\x00\x00\xff\xff') else b''
    return out + c.flush()


def dense(rng, obs):
    """Highly compressible files: a few compressed bytes unfold into many, around the sizes buffers have."""
    files = {}
    for name in gen.fnames(rng, 60):
        unit = rng.choice([b'\0', b'x', b'ab', '{0},\r\n'.encode(), bytes(range(97, 120))])
        n = rng.choice([1, 1, 2, 3]) * (1 << rng.choice([12, 13, 14, 15, 16, 16, 17])) + rng.choice(
            [0, rng.randint(-40, 40), rng.randint(0, 5000)])
        files[name] = (unit * (n // len(unit) + 1))[:n]
        obs.count('dense_files')
    return [files]


def run(case, obs):
    rng = case_rng('C03' + case['kind'], case['seed'], case['i'])
    env.schedule('shuffle', case['i'])
    conts = dense(rng, obs) if case['kind'] == 'dense' else make(rng, obs)
    s1, s0, s1b = (os.path.join(obs.tmp, x) for x in ('s1', 's0', 's1b'))
    if case['kind'] == 'pack' or case['kind'] == 'dense' and case['i'] % 32:
        for i, files in enumerate(conts):
            for name, data in flat(files).items():
                p = os.path.join(s1, str(i), name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(data)
        try:
            env.container_writer.compress_and_build(s1, s0)
        except Exception as e:
            raise Violation('pack-raises', repr(e))
        for i, files in enumerate(conts):
            d = os.path.join(s0, str(i))
            got = {}
            for k, v in read_tree(d).items():
                try:
                    v = cf.inflate(v)
                except Exception as e:
                    raise Violation('packed-not-deflate', f'{k}: {e!r}')
                if isinstance(files.get(k), dict):
                    got.update({f'{k}/{a}': b for a, b in opened(k, v, files[k]).items()})
                else:
                    got[k] = v
            compare(obs, 'packed', got, flat(files))
        extra = set(os.listdir(s0)) - {str(i) for i in range(len(conts))}
        obs.check(not extra, 'packed-extra-container', extra)
    else:
        for i, files in enumerate(conts):
            for name, data in files.items():
                if isinstance(data, dict):
                    data = closed(rng, data)
                st = foreign(rng, data)
                assert cf.inflate(st) == data
                obs.count('foreign_streams')
                p = os.path.join(s0, str(i), name)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(st)
    try:
        env.container_reader.decompress_and_extract(s0, s1b)
    except Exception as e:
        raise Violation('unpack-raises', repr(e))
    got = read_tree(s1b)
    want = {}
    for i, files in enumerate(conts):
        want.update({f'{i}/{k}': v for k, v in flat(files).items()})
    compare(obs, 'unpacked', got, want)
    obs.sig(case['kind'], sorted((k.count('/'), len(v)) for k, v in want.items()))
    obs.sample(dict(case=case, sizes=[len(v) for v in want.values()][:12]))
