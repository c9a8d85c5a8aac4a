"""C08: module texts: the source file holds exactly the module, and what is edited in it is what gets built."""
import os
import re

from vlib import brace, env, gen, mutate, product as P, rt
from vlib.core import Violation, case_rng

META = dict(
    level='exploration', timeout=180,
    budget=dict(quick=150, thorough=1500),
    rule='every module of a product (object, manager, application, command and form modules, modules in utf-8 with and '
         'without a BOM and in windows-1251, modules stored compiled without a text) gets a generated text; each text '
         'must appear as exactly one readable source file; then source files are edited and the built product must '
         'hold exactly the new texts in the right modules and nothing else changed; distinct = module texts',
    require={'modules_extracted': 300, 'modules_edited': 200, 'distinct': 300, 'form_modules': 30, 'compiled': 3,
             'cp1251': 20},
    assumptions=['line ends are normalised (documented behaviour of text sources); directives of 8.0-8.2 modules are '
                 'judged by C24, shared areas by C09 and C10'],
)


def cases(tier, seed):
    weights = dict(epf803=10, epf802=8, cfe=8, apamold=4, apam=6, cf16=8, cf=4)
    k = 2 if tier == 'quick' else 24
    i = 0
    for r in range(k):
        for name, n in weights.items():
            for j in range(n):
                yield dict(kind=name, seed=seed, i=i)
                i += 1


def form_modules(p):
    """managed forms: the module is a string inside the form"""
    out = []
    for k, v in p.main.items():
        if isinstance(v, bytes) and k.endswith('.0') and v[:8].lstrip(b'\xef\xbb\xbf')[:2] in (b'{4', b'{3', b'{2'):
            try:
                t = p.tree(k)
            except (brace.BraceError, UnicodeDecodeError):
                continue
            if len(t[0]) > 2 and t[0][0] in (('a', '4'), ('a', '3'), ('a', '2')) and t[0][2][0] == 's' \
                    and len(t[0]) == 10:
                out.append(k)
    return out


def new_text(rng, n, old, cp=False):
    """a text whose second line is a unique marker"""
    mark = f'// модуль {n} {rng.getrandbits(40):x}'
    s = mutate.code_text(rng, old, hi=20)
    if cp:
        s = ''.join(c for c in s if ok1251(c))
    first = rng.choice(['', '', 'Перем А;', '\tx', '// "', '  '])
    eol = rng.choice(['\r\n', '\n'])
    return mark, first + eol + mark + eol + s


def ok1251(c):
    try:
        c.encode('cp1251')
        return True
    except UnicodeEncodeError:
        return False


def norm(s):
    return s.replace('\r\n', '\n').replace('\r', '\n')


def put(p, where, text, enc):
    k, n = where
    if n is None:
        t = p.tree(k)
        t[0][2] = ('s', text)
        p.set_tree(k, t)
    else:
        p.main[k][n] = dict(sig=b'\xef\xbb\xbf', utf=b'', cp=b'')[enc] + text.encode('cp1251' if enc == 'cp' else 'utf-8')


def get(p, where):
    k, n = where
    if k not in p.main:
        return None
    try:
        if n is None:
            return norm(p.tree(k)[0][2][1])
        return norm(decode(p.main[k][n]))
    except (KeyError, brace.BraceError, IndexError, TypeError):
        return None


def decode(b):
    try:
        return b.decode('utf-8-sig')
    except UnicodeDecodeError:
        return b.decode('cp1251')


def source_files(src):
    return {f: d for f, d in P.read_dir(src).items() if f.endswith('.bsl')}


def run(case, obs):
    rng = case_rng('C08', case['seed'], case['i'])
    kind = case['kind']
    p = rt.defuse(P.seed(kind))
    mutate.some(p, rng, rng.choice([0, 2, 5]), [mutate.clone, mutate.rename, mutate.new_module, mutate.new_module])
    old = mutate.is_old(p)
    want, encs = {}, {}
    marks = {}
    places = [(k, n) for k, n in mutate.modules(p)] + [(k, None) for k in form_modules(p)]
    compiled = {}
    for n, w in enumerate(places):
        if w[1] == 'text' and rng.random() < 0.06 and not re.match(r'.*\.[567]$', w[0]):
            d = p.main[w[0]]
            del d['text']
            d['image'] = b'\xff\xfe\x98\r\n' + gen.blob(rng, rng.choice([1, 50, 700, 5000]))
            compiled[w] = d['image']
            obs.count('compiled')
            continue
        enc = 'sig' if w[1] is None else rng.choice(['sig', 'sig', 'utf', 'cp'])
        mark, text = new_text(rng, n, old or w[1] == 'module', enc == 'cp')
        if enc == 'cp':
            try:
                text.encode('cp1251').decode('utf-8')
                enc = 'utf'
            except UnicodeDecodeError:
                obs.count('cp1251')
        put(p, w, text, enc)
        want[w], encs[w], marks[mark] = norm(text), enc, w
        obs.count('form_modules' if w[1] != 'text' else 'object_modules')
        obs.sig(text)
    raw, src, out, q, modes = rt.roundtrip(obs, p, rng)
    # every module is one source file with exactly its text
    files = source_files(src)
    place_of = {}
    for f, d in files.items():
        try:
            s = d.decode('utf-8')
        except UnicodeDecodeError:
            raise Violation('source-encoding', f'{f} is not readable as utf-8')
        m = [x for x in re.findall(r'// модуль \d+ [0-9a-f]+', s) if x in marks]
        if not m:
            continue
        if len(m) != 1 or marks[m[0]] in place_of:
            raise Violation('module-duplicated', f'{f} holds {len(m)} modules')
        place_of[marks[m[0]]] = f
        obs.count('modules_extracted')
        w = want[marks[m[0]]]
        obs.check(s == w, 'module-source-differs', f'{f}: {first_diff(w, s)}')
    for w in want:
        obs.check(w in place_of, 'module-not-extracted', f'module {w} of {kind} is in no source file')
    for w in want:
        obs.check(get(q, w) == want[w], 'module-built-differs', lambda: f'{w}: {first_diff(want[w], get(q, w) or "")}')
    for w, b in compiled.items():
        got = q.main.get(w[0])
        obs.check(isinstance(got, dict) and got.get('image') == b and 'text' not in got, 'compiled-module-lost',
                  f'{w[0]} had a compiled module, comes back with {sorted(got) if isinstance(got, dict) else got!r}')
    # edit some
    todo = rng.sample(sorted(place_of, key=str), min(len(place_of), rng.randint(1, 12)))
    for n, w in enumerate(todo):
        mark, text = new_text(rng, n, old or w[1] == 'module', encs[w] == 'cp')
        if rng.random() < 0.1:
            text = ''
        text = norm(text)
        P.write(os.path.join(src, place_of[w]), text.replace('\n', rng.choice(['\n', '\r\n'])).encode('utf-8'))
        want[w] = text
        obs.count('modules_edited')
    rt.pick_schedule(rng)
    q2 = P.parse_built(P.build(obs, src))
    for w in want:
        got = get(q2, w)
        obs.check(got == want[w], 'module-edit-lost' if w in todo else 'module-edit-leaks',
                  lambda: f'{w}: {first_diff(want[w], got or "")}')
    # nothing else moved
    a, b = q.copy(), q2.copy()
    for w in want:
        for x in (a, b):
            if w[0] in x.main:
                put(x, w, '', 'utf')
    for f, what in P.differences(a, b):
        obs.violation('edit-changed-more:' + rt.kind_of(a, f), f'{f}: {what}')
    obs.sample(dict(product=kind, modules=len(want), compiled=len(compiled), edited=len(todo)))


def first_diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f'differs at {i}: {a[max(0, i - 30):i + 40]!r} -> {b[max(0, i - 30):i + 40]!r}'
