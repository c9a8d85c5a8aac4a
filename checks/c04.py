"""C04: a damaged binary is never taken for a sound one, and every damaged input is answered in bounded time."""
import os
import re
import shutil
import struct

from vlib import cf, env, product as P
from vlib.core import Violation, case_rng

META = dict(
    level='fault_enumeration', timeout=150,
    budget=dict(quick=240, thorough=2400),
    rule='sample products and rewritten ones are cut at every kind of place (all bytes of the small ones in the '
         'thorough tier, every structure boundary +-1 and a sample of others in the quick one), get one stream cut '
         'inside an otherwise sound container, lose one inner file or a part of a module, get a table of contents '
         'that ends inside an entry, or get one structural field or byte overwritten; extract must raise, or - '
         'cuts, lost bytes - return exactly the sources of the whole file; distinct = (product, fault, place)',
    require={'faults': 2500, 'rejected': 1500, 'distinct': 2000, 'stream_cuts': 100, 'field_faults': 400,
             'lost_files': 100, 'lost_module_parts': 30, 'toc_faults': 80},
    assumptions=['a cut that leaves a legal file of fewer containers is a different file, not a damaged one'],
)


def boundaries(raw):
    """offsets at which a structure of the file starts or ends"""
    out = {0, len(raw)}
    for m in re.finditer(rb'\r\n[0-9a-f]{8} [0-9a-f]{8} [0-9a-f]{8} \r\n', raw):
        doc, cur, nxt = (int(raw[m.start() + i:m.start() + i + 8], 16) for i in (2, 11, 20))
        out |= {m.start(), m.end(), min(len(raw), m.end() + min(doc, cur)), min(len(raw), m.end() + cur)}
    for m in re.finditer(rb'\r\n[0-9a-f]{16} [0-9a-f]{16} [0-9a-f]{16} \r\n', raw):
        doc, cur, nxt = (int(raw[m.start() + i:m.start() + i + 16], 16) for i in (2, 19, 36))
        out |= {m.start(), m.end(), min(len(raw), m.end() + min(doc, cur)), min(len(raw), m.end() + cur)}
    return sorted(out)


def cases(tier, seed):
    big = tier != 'quick'
    names = P.ALL if big else ['erf', 'epf803', 'epf802', 'cfe', 'apamold', 'apam', 'cf16']
    for name in names:
        small = name in ('erf', 'cfe', 'epf803', 'epf802')
        parts = (16 if small else 8) if big else (3 if small else 1)
        for part in range(parts):
            yield dict(kind='cut', seed=seed, name=name, part=part, parts=parts, per=(4000 if small else 120)
                       if big else (400 if small else 100))
    for i in range(600 if big else 80):
        yield dict(kind='field', seed=seed, i=i, per=12)
    for i in range(300 if big else 40):
        yield dict(kind='stream', seed=seed, i=i, per=6)
    for i in range(100 if big else 12):
        yield dict(kind='toc', seed=seed, i=i, per=12)
    for i in range(300 if big else 40):
        yield dict(kind='lost', seed=seed, i=i, per=6)


def attempt(obs, raw, tag='x'):
    """-> (error, sources)"""
    ws = os.path.join(obs.tmp, 'ws')
    shutil.rmtree(ws, ignore_errors=True)
    path = P.write(os.path.join(obs.tmp, '.in', 'in.bin'), raw)
    obs.count('faults')
    try:
        env.v8unpack.extract(path, os.path.join(ws, 'src'))
    except Exception as e:
        obs.count('rejected')
        return e, None
    return None, P.read_dir(ws)


def whole(obs, raw, key):
    err, src = attempt(obs, raw)
    if err is not None:
        raise Violation('sound-file-rejected', f'{key}: {P.err_text(err)}')
    if not src:
        raise Violation('sound-file-empty', f'{key}: extract returned normally without writing anything')
    return src


def legal_prefix(raw, cut, n_cont):
    """the cut leaves one or more complete containers, up to the zero padding of the last block"""
    for end in [m.start() for m in re.finditer(rb'\xff{8}', raw[:cut + 600])] + [cut]:
        if cut <= end <= len(raw) and not raw[cut:end].strip(b'\0'):
            try:
                if len(cf.read_file(raw[:end])) < n_cont:
                    return True
            except Exception:
                pass
    return False


def run(case, obs):
    rng = case_rng('C04', case['seed'], (case['kind'], case.get('i', case.get('part')), case.get('name')))
    globals()['run_' + case['kind']](case, obs, rng)


def run_cut(case, obs, rng):
    raw = P.raw_seed(case['name'])
    want = whole(obs, raw, case['name'])
    n_cont = len(cf.read_file(raw))
    b = boundaries(raw)
    places = sorted({x + d for x in b for d in (-1, 0, 1)} | {rng.randrange(len(raw)) for _ in range(len(b) // 3)}
                    | set(range(0, min(80, len(raw)))) | set(range(max(0, len(raw) - 700), len(raw), 7)))
    if case['per'] >= 4000:
        places = list(range(len(raw)))
    places = [x for x in places if 0 <= x < len(raw)]
    mine = places[case['part']::case['parts']]
    if len(mine) > case['per']:
        mine = sorted(rng.sample(mine, case['per']))
    if n_cont > 1:  # the second container starts, but hardly
        second = cf.read_file(raw)[0]['end'] if 'end' in cf.read_file(raw)[0] else raw.rfind(b'\xff' * 8)
        mine += [second + x for x in list(range(0, 24)) + [50, 74, 75, 76, 100]][case['part']::case['parts']]
    for cut in mine:
        err, got = attempt(obs, raw[:cut])
        obs.sig('cut', case['name'], cut)
        if err is None and got != want:
            if n_cont > 1 and legal_prefix(raw, cut, n_cont):
                obs.count('legal_shorter')
                continue
            missing = sorted(set(want) - set(got))[:3]
            differ = sorted(k for k in set(want) & set(got) if want[k] != got[k])[:3]
            obs.violation('truncated-accepted', f'{case["name"]} cut to {cut} of {len(raw)} bytes was extracted '
                          f'without an error; lost {missing}, changed {differ}')
    obs.sample(dict(product=case['name'], cuts=mine[:6], size=len(raw)))


def pick_small(rng):
    return rng.choice(['erf', 'epf803', 'epf802', 'cfe', 'apamold'])


def run_field(case, obs, rng):
    """one overwritten field: anything but a hang, a crash of the interpreter or a wrong answer about the rest"""
    name = pick_small(rng)
    raw = P.raw_seed(name)
    want = whole(obs, raw, name)
    heads = [m for m in re.finditer(rb'\r\n[0-9a-f]{8} [0-9a-f]{8} [0-9a-f]{8} \r\n', raw)]
    for _ in range(case['per']):
        bad = bytearray(raw)
        k = rng.random()
        decisive = None
        if k < 0.6:
            m = rng.choice(heads)
            which = rng.choice([2, 11, 20])
            old = raw[m.start() + which:m.start() + which + 8]
            val = rng.choice([b'00000000', b'00000001', b'7fffffff', b'ffffffff', b'%08x' % m.start(),
                              b'%08x' % (len(raw) - 10), b'%08x' % len(raw), b'zzzzzzzz', b'        ',
                              b'%08x' % max(0, int(old, 16) - rng.randint(1, 40)),
                              b'%08x' % min(0x7fffffff, int(old, 16) + rng.randint(1, 4000))])
            bad[m.start() + which:m.start() + which + 8] = val
            what = f'block {m.start():x} field {which}: {old} -> {val}'
            doc, cur, nxt = (int(raw[m.start() + i:m.start() + i + 8], 16) for i in (2, 11, 20))
            if which == 2 and doc and val in (b'7fffffff', b'ffffffff', b'zzzzzzzz') and m.start() > 16:
                decisive = 'the document claims more bytes than there are'
            if which == 11 and doc and val in (b'00000000', b'zzzzzzzz'):
                decisive = 'the block has no room for its document'
        elif k < 0.8:
            pos = 16 + 31 + rng.randrange(0, 60)
            if pos >= len(bad):
                continue
            bad[pos] ^= rng.choice([1, 0x80, 0xff])
            what = f'toc byte {pos}'
        else:
            pos = rng.randrange(len(bad))
            bad[pos] ^= rng.randrange(1, 256)
            what = f'byte {pos}'
        obs.count('field_faults')
        err, got = attempt(obs, bytes(bad))
        obs.sig('field', name, what)
        if err is None and decisive and got != want:
            obs.violation('damage-accepted', f'{name} {what}: {decisive}, yet extracted without an error')
        obs.count('assertions')


def run_toc(case, obs, rng):
    """a table of contents that stops in the middle of an entry: sizes of its document that are no number of entries"""
    name = rng.choice(['erf', 'epf803', 'epf802', 'cfe', 'apamold'])
    raw = P.raw_seed(name)
    want = whole(obs, raw, name)
    conts = cf.read_file(raw)
    files = [(k, bytes(v)) for k, v in conts[0]['files'].items()]
    rng.shuffle(files)
    raw = cf.write_container(files, conts[0]['fmt'], cf.Layout(rng, shuffle=True)) + b''.join(
        cf.write_container([(k, bytes(v)) for k, v in c['files'].items()], c['fmt'], None) for c in conts[1:])
    n = len(files)
    for k in rng.sample(range(1, 12), 5) + [12 * rng.randint(1, n - 1) + rng.randint(1, 11) for _ in range(case['per'] - 5)]:
        bad = bytearray(raw)
        old = int(raw[18:26], 16)
        if k >= old:
            continue
        bad[18:26] = b'%08x' % (old - k)
        toc = raw[47:47 + old - k]
        if not toc[len(toc) // 12 * 12:].strip(b'\0'):
            continue
        err, got = attempt(obs, bytes(bad))
        obs.count('toc_faults')
        obs.sig('toc', name, k)
        if err is None and got != want:
            obs.violation('cut-toc-accepted', f'{name}: the table of contents ends {k} bytes early, inside an entry, '
                          f'yet extracted without an error')
        obs.count('assertions')
    for e in {0, n - 1, rng.randrange(n)}:  # the mark that closes an entry is damaged
        bad = bytearray(raw)
        at = 47 + 12 * e + 8
        assert bad[at:at + 4] == b'\xff\xff\xff\x7f'
        bad[at:at + 4] = rng.choice([b'\0\0\0\0', b'\xff\xff\xff\xff', b'\xff\xff\xff\x77', rng.randbytes(3) + b'\x01'])
        err, got = attempt(obs, bytes(bad))
        obs.count('toc_faults')
        obs.sig('mark', name, e)
        if err is None and got != want:
            obs.violation('damaged-toc-accepted', f'{name}: the mark after entry {e} of {n} of the table of contents '
                          f'is damaged, yet extracted without an error')
        obs.count('assertions')


def run_stream(case, obs, rng):
    """a sound container with one deflate stream cut short"""
    name = pick_small(rng)
    raw = P.raw_seed(name)
    want = whole(obs, raw, name)
    conts = cf.read_file(raw)
    for _ in range(case['per']):
        ci = len(conts) - 1
        files = [(k, bytes(v)) for k, v in conts[ci]['files'].items()]
        i = rng.randrange(len(files))
        k, v = files[i]
        if len(v) < 3:
            continue
        cut = rng.choice([1, 2, len(v) // 2, len(v) - 1, rng.randrange(1, len(v))])
        files[i] = (k, v[:cut])
        out = b''.join(cf.write_container([(a, bytes(b)) for a, b in c['files'].items()], c['fmt'], None)
                       for c in conts[:-1]) + cf.write_container(files, conts[ci]['fmt'], None)
        err, got = attempt(obs, out)
        obs.count('stream_cuts')
        obs.sig('stream', name, k, cut)
        if err is None and got != want:
            obs.violation('stream-cut-accepted', f'{name}: the packed data of {k} end after {cut} of {len(v)} bytes, '
                          f'yet extracted without an error')


MODULE_PARTS = ('info', 'text', 'form', 'module')


def run_lost(case, obs, rng):
    """a sound container without one of the files its objects consist of"""
    name = pick_small(rng)
    p = P.seed(name)
    main = p.main
    need = required(p)
    inner = [(k, f) for k, v in main.items() if isinstance(v, dict) for f in v if f in MODULE_PARTS]
    if not need:
        return
    for j in range(case['per']):
        q = p.copy()
        if inner and j % 3 == 2:  # a module container without its text or its description
            k, f = rng.choice(sorted(inner))
            q.main[k] = type(q.main[k])((a, b) for a, b in q.main[k].items() if a != f)
            obs.count('lost_module_parts')
            obs.count('lost_files')
            err, got = attempt(obs, q.dump())
            obs.sig('lost', name, k, f)
            if err is None:
                obs.violation('lost-module-part-accepted', f'{name}: {f} of the module {k} is not in the file, yet '
                              f'extracted without an error')
            continue
        k = rng.choice(sorted(need))
        del q.main[k]
        obs.count('lost_files')
        err, got = attempt(obs, q.dump())
        obs.sig('lost', name, k)
        if err is None:
            obs.violation('lost-object-accepted', f'{name}: {k} ({need[k]}) is not in the file, yet extracted without '
                          f'an error')


def required(p):
    """files without which an object does not exist: what root names and what the includes list"""
    from vlib import meta
    return meta.object_files(p)
