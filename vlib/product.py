"""Products (cf, cfe, epf, erf) at the level of their inner files, independent of the code under test."""
import base64
import hashlib
import os
import re
import shutil
from collections import OrderedDict

from . import brace, cf, env
from .core import Violation

SEEDS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeds')
ALL = ['erf', 'epf803', 'epf802', 'cfe', 'apamold', 'apam', 'cf16', 'cf']
_cache = {}


class Product:
    """conts: list of (fmt, OrderedDict name -> bytes | OrderedDict(name -> bytes))"""

    def __init__(self, conts):
        self.conts = conts

    @property
    def main(self):
        return self.conts[-1][1]

    def copy(self):
        return Product([(f, OrderedDict((k, OrderedDict(v) if isinstance(v, dict) else v) for k, v in m.items()))
                        for f, m in self.conts])

    def flat(self):
        r = {}
        for i, (f, m) in enumerate(self.conts):
            for k, v in m.items():
                if isinstance(v, dict):
                    for k2, v2 in v.items():
                        r[f'{i}/{k}/{k2}'] = v2
                    if not v:
                        r[f'{i}/{k}/'] = b''
                else:
                    r[f'{i}/{k}'] = v
        return r

    def dump(self, layout=None, level=6):
        out = b''
        for fmt, m in self.conts:
            files = []
            for k, v in m.items():
                if isinstance(v, dict):
                    v = cf.write_container(list(v.items()), cf.Fmt32)
                files.append((k, cf.deflate(v, level)))
            out += cf.write_container(files, fmt, layout)
        return out

    # --- helpers on brace files -------------------------------------------------------------------------------
    def tree(self, name):
        return brace.parse(brace.to_text(self.main[name]))

    def set_tree(self, name, roots):
        self.main[name] = b'\xef\xbb\xbf' + ',\r\n'.join(brace.dump(t) for t in roots).encode('utf-8')


def parse(raw):
    conts = []
    for c in cf.read_file(raw):
        m = OrderedDict()
        for k, v in c['files'].items():
            v = cf.inflate(v)
            if v[:4] == b'\xff\xff\xff\x7f':
                inner = cf.read_file(v)
                v = OrderedDict(inner[0]['files'])
            m[k] = v
        conts.append((c['fmt'], m))
    return Product(conts)


def raw_seed(name):
    if name not in _cache:
        with open(os.path.join(SEEDS, name + '.bin'), 'rb') as f:
            _cache[name] = f.read()
    return _cache[name]


def seed(name):
    key = ('p', name)
    if key not in _cache:
        _cache[key] = parse(raw_seed(name))
    return _cache[key].copy()


def text_norm(data):
    """Text of a module or of a text document: BOM and line ends do not matter."""
    s = brace.to_text(data)
    return s.replace('\r\n', '\n').replace('\r', '\n')


def canon(data):
    """Meaning of one inner file."""
    if data[:3] == b'\xef\xbb\xbf' or data[:1] == b'{':
        try:
            s = brace.to_text(data)
            try:
                return ('brace', brace.norm(brace.parse(strip_tail(s))))
            except brace.BraceError:
                return ('text', s.replace('\r\n', '\n').replace('\r', '\n'))
        except UnicodeDecodeError:
            pass
    try:
        data.decode('utf-8')
        return ('text', text_norm(data))
    except UnicodeDecodeError:
        return ('bin', data)


CODE_FILE = re.compile(r'/(text|module)$')


def canon_file(name, data):
    c = canon(data)
    if c[0] == 'bin' and CODE_FILE.search(name):  # module text in cp1251
        return ('text', text_norm(data.decode('cp1251', 'replace').encode('utf-8')))
    return c


def strip_tail(s):
    """Some platform files end with surplus closing braces."""
    t = s.rstrip()
    try:
        brace.parse(t)
    except brace.BraceError as e:
        m = re.match(r'unbalanced } at (\d+)$', str(e))
        if m and not t[int(m.group(1)):].strip('} \r\n\t'):
            return t[:int(m.group(1))]
    return t


def brief(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


def differences(a: Product, b: Product, ignore=(), limit=12):
    """Semantic differences of two products: list of (file, what). `versions` and `configinfo` hashes are judged by
    consistency, not equality."""
    fa, fb = a.flat(), b.flat()
    out = []
    for k in sorted(set(fa) - set(fb)):
        out.append((k, 'lost'))
    for k in sorted(set(fb) - set(fa)):
        out.append((k, 'appeared'))
    for k in sorted(set(fa) & set(fb)):
        base = k.rsplit('/', 1)[-1]
        if k in ignore or base in ignore or fa[k] == fb[k]:
            continue
        if base == 'versions':
            continue
        ca, cb = canon_file(k, fa[k]), canon_file(k, fb[k])
        if base == 'configinfo':
            ca, cb = (mask_configinfo(x) for x in (ca, cb))
        if ca == cb:
            continue
        if ca[0] == cb[0] == 'brace':
            d = brace.diff(ca[1], cb[1], limit=3)
            out.append((k, 'values differ: ' + '; '.join(f'at {list(p)}: {brief(x, 100)} -> {brief(y, 100)}'
                                                         for p, x, y in d)))
        elif ca[0] == cb[0] == 'text':
            i = next((i for i, (x, y) in enumerate(zip(ca[1], cb[1])) if x != y), min(len(ca[1]), len(cb[1])))
            out.append((k, f'text differs at {i}: {brief(ca[1][max(0, i - 20):i + 60])} -> '
                           f'{brief(cb[1][max(0, i - 20):i + 60])}'))
        else:
            out.append((k, f'{ca[0]} {len(fa[k])} bytes -> {cb[0]} {len(fb[k])} bytes: {brief(fa[k][:40])} -> '
                           f'{brief(fb[k][:40])}'))
        if len(out) >= limit:
            break
    return out


def mask_configinfo(c):
    if c[0] != 'brace':
        return c
    roots = c[1]
    return (c[0], roots[:2] + roots[3:] if len(roots) > 2 else roots)


def consistency(raw: bytes, p: Product):
    """Problems of the bookkeeping files of a written product."""
    out = []
    main = p.main
    names = set(main)
    if 'versions' in main:
        t = brace.parse(brace.to_text(main['versions']))[0]
        n = int(t[1][1])
        rest = t[2:]
        listed = [x[1] for x in rest[0::2]]
        if len(rest) != 2 * n:
            out.append(f'versions declares {n} entries, holds {len(rest) / 2}')
        dup = {x for x in listed if listed.count(x) > 1}
        if dup:
            out.append(f'versions lists twice: {sorted(dup)[:3]}')
        want = names - {'version', 'versions', 'root'} | {''}
        missing = want - set(listed) - {'configinfo'}
        ghost = set(listed) - names - {''}
        if missing:
            out.append(f'versions misses {sorted(missing)[:4]}')
        if ghost:
            out.append(f'versions lists absent {sorted(ghost)[:4]}')
    if 'configinfo' in main:
        t = brace.parse(brace.to_text(main['configinfo']))
        packed = cf.read_file(raw)[-1]['files']
        if len(t) < 3:
            out.append(f'configinfo has {len(t)} objects')
        else:
            v = t[2]
            n = int(v[0][1])
            rest = v[1:]
            if len(rest) != 2 * n:
                out.append(f'configinfo declares {n} entries, holds {len(rest) / 2}')
            have = {}
            for a, h in zip(rest[0::2], rest[1::2]):
                have[a[1]] = h[1]
            want = {k: base64.b64encode(hashlib.sha1(d).digest()).decode() for k, d in packed.items()
                    if k != 'configinfo'}
            if have != want:
                bad = sorted(k for k in set(have) | set(want) if have.get(k) != want.get(k))
                out.append(f'configinfo hashes wrong for {bad[:4]}')
    return out


# ------------------------------------------------------------------------------------------------ running the tool

def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)
    return path


def extract(obs, raw, out, key='extract-raises', *, index=None, options=None, temp_dir=None, processes=None,
            fname='in.bin'):
    """raw -> sources in `out`; any exception is a violation with `key`."""
    path = write(os.path.join(obs.tmp, '.in', fname), raw)
    obs.count('extracts')
    try:
        env.v8unpack.extract(path, out, index=index, options=dict(options) if options else None, temp_dir=temp_dir,
                             processes=processes)
    except Exception as e:
        raise Violation(key, f'extracting failed: {err_text(e)}')


def build(obs, src, key='build-raises', *, index=None, options=None, temp_dir=None, fname='out.bin', processes=None):
    """sources in `src` -> bytes"""
    path = os.path.join(obs.tmp, '.out', fname)
    obs.count('builds')
    if os.path.exists(path):
        os.remove(path)
    try:
        env.v8unpack.build(src, path, index=index, options=dict(options) if options else None, temp_dir=temp_dir,
                           processes=processes)
    except Exception as e:
        raise Violation(key, f'building failed: {err_text(e)}')
    try:
        with open(path, 'rb') as f:
            return f.read()
    except FileNotFoundError:
        raise Violation('build-silent', 'build returned normally without writing the file')


def parse_built(raw, key='built-file-illegal'):
    try:
        return parse(raw)
    except Exception as e:
        raise Violation(key, f'the file built is not legal: {e!r}')


def err_text(e):
    d = getattr(e, '__dict__', {})
    return f'{type(e).__name__} {getattr(e, "message", "") or e} {getattr(e, "detail", "")} ' \
           f'{str(d.get("stack", ""))[-500:]}'[:900]


def read_dir(root):
    r = {}
    for dp, dn, fn in os.walk(root):
        for f in fn:
            p = os.path.join(dp, f)
            with open(p, 'rb') as fd:
                r[os.path.relpath(p, root)] = fd.read()
    return r


def rmtree(p):
    shutil.rmtree(p, ignore_errors=True)
