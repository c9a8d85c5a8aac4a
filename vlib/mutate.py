"""Random edits of a product at the level of its inner files (what a developer could have saved from the platform).

Every mutation keeps the product legal; each returns a short description or None when it found nothing to do."""
import base64
import re
from collections import OrderedDict

from . import brace, cf, gen, meta, product as P
from .kinds import KINDS

LANG = re.compile(r'^[a-z]{2}(_[A-Z]{2})?$')

CODE = ['Процедура Выполнить() Экспорт', 'КонецПроцедуры', '&НаСервере', '&НаКлиенте', '&НаСервереБезКонтекста',
        '#Если Сервер Тогда', '#КонецЕсли', '#Область Служебная', '#КонецОбласти', '\tА = "стр""ока";', '\t|продолжение',
        '// комментарий "с кавычкой', '', '\t', '\tБ = 1; // {,}', 'Function X() Export', 'EndFunction', '{', '}', '",',
        'Ω€😀', '\tВозврат;', '#Использовать lib', '    ', '//', '"', '""', '\tС = "a,b";//v8unpack', 'x' * 90]
OLD = ['Процедура Выполнить() Экспорт', 'КонецПроцедуры', '\tА = "стр""ока";', '', '\tБ = 1; // {,}', '#Если Клиент Тогда',
       '#КонецЕсли', '"', 'Ф = 1;']


def code_text(rng, old=False, hi=14):
    """module text; for products whose directives are commented (8.0-8.2) none that is"""
    n = rng.randint(0, hi)
    if rng.random() < 0.05:  # nothing but blanks
        return rng.choice([' ', '\r\n', '\t\r\n', '  \r\n\r\n', '\n'])
    lines = [rng.choice(OLD if old else CODE) for _ in range(n)]
    if rng.random() < 0.5:
        lines += [gen.text(rng, 0, 40, nl=False).replace('\x0b', ' ').replace('\u2028', ' ').replace('\x85', ' ')
                  for _ in range(rng.randint(0, 4))]
        lines = [x for x in lines if not x.lstrip().startswith('#Область incl')]
    eol = rng.choice(['\r\n', '\r\n', '\n'])
    s = eol.join(lines)
    if rng.random() < 0.7 and s:
        s += eol
    return s


def encode_code(rng, s):
    k = rng.random()
    if k < 0.7:
        return b'\xef\xbb\xbf' + s.encode('utf-8')
    if k < 0.85:
        return s.encode('utf-8')
    try:
        b = s.encode('cp1251')
        try:
            b.decode('utf-8')
        except UnicodeDecodeError:
            return b
    except UnicodeEncodeError:
        pass
    return b'\xef\xbb\xbf' + s.encode('utf-8')


def is_old(p):
    """directives are commented in the binary (8.0 - 8.2 layouts)"""
    v = p.main.get('version')
    if v is None:
        return False
    t = brace.parse(brace.to_text(v))[0]
    if t[0] == ('a', '106') or len(t[0]) == 2:
        return True
    try:
        return t[0][2][0][1][:3] in ('1', '2', '802') or len(t[0][2][0][1]) < 3
    except (IndexError, TypeError):
        return True


# ---------------------------------------------------------------------------------------------- single mutations

def objects(p):
    o = meta.objects(p)
    r = meta.root_uuid(p)
    return {u: x for u, x in o.items() if u != r and x.header is not None}


def siblings(objs, o):
    return [x for x in objs.values() if x.parent == o.parent and x.type == o.type]


def set_header(p, u, fn):
    """rewrite the header list of an object in place"""
    roots = p.tree(u)
    h = meta.find_header(roots, u)
    if h is None and u == meta.root_uuid(p):  # the root of an external data processor has a uuid beside its file
        h = meta.find_header(roots, None)
    if h is None:
        return False
    fn(h)
    p.set_tree(u, roots)
    return True


def rename(p, rng):
    objs = objects(p)
    if not objs:
        return
    o = rng.choice(sorted(objs.values(), key=lambda x: x.uuid))
    taken = {x.name.lower() for x in siblings(objs, o)}
    n = gen.ident(rng, 1, 25)
    if rng.random() < 0.35:  # the name of an object of another type (names are unique within a type only)
        other = sorted(x.name for x in objs.values() if x.parent == o.parent and x.type != o.type)
        n = rng.choice(other) if other else n
    if n.lower() in taken:
        return
    if not set_header(p, o.uuid, lambda h: h.__setitem__(2, ('s', n))):
        return
    return f'rename {o.name}->{n}'


def twin(p, rng):
    """give an object the name of an object of another type next to it, preferring objects with parts of their own"""
    objs = objects(p)
    by = {}
    for x in sorted(objs.values(), key=lambda x: x.uuid):
        by.setdefault(x.parent, []).append(x)
    groups = [v for v in by.values() if len({x.type for x in v if x.children}) > 1] or \
             [v for v in by.values() if len({x.type for x in v}) > 1]
    if not groups:
        return
    g = rng.choice(groups)
    rich = [x for x in g if x.children]
    o = rng.choice(rich or g)
    other = [x for x in (rich if rng.random() < 0.8 else g) if x.type != o.type]
    if not other:
        return
    n = rng.choice(other).name
    if n.lower() in {x.name.lower() for x in siblings(objs, o)}:
        return
    return set_header(p, o.uuid, lambda h: h.__setitem__(2, ('s', n))) and f'twin {o.name}->{n}'


def synonym(p, rng):
    objs = objects(p)
    if not objs:
        return
    o = rng.choice(sorted(objs.values(), key=lambda x: x.uuid))
    k = rng.randint(0, 3)
    langs = rng.sample(['ru', 'en', 'de', 'uk', 'kk'], k)

    def fn(h):
        h[3] = [('a', str(k))] + [y for lang in langs for y in (('s', lang), ('s', gen.text(rng, 0, 120)))]

    return set_header(p, o.uuid, fn) and f'synonym {o.name} {k}'


def comment(p, rng, text=None):
    objs = objects(p)
    if not objs:
        return
    o = rng.choice(sorted(objs.values(), key=lambda x: x.uuid))
    s = gen.text(rng, 0, 60) if text is None else text
    s = s.replace('ver:', 'ver ')
    return set_header(p, o.uuid, lambda h: h.__setitem__(4, ('s', s))) and f'comment {o.name}'


def modules(p):
    """-> list of (container name, file name or None) of module texts"""
    out = []
    for k, v in p.main.items():
        if isinstance(v, dict):
            for n in ('text', 'module'):
                if n in v:
                    out.append((k, n))
    return out


def module(p, rng):
    m = modules(p)
    if not m:
        return
    k, n = rng.choice(sorted(m))
    old = is_old(p) or n == 'module'
    p.main[k][n] = encode_code(rng, code_text(rng, old))
    return f'module {k}/{n}'


def new_module(p, rng):
    """an object that had none gets a module"""
    donors = sorted(k for k, v in p.main.items() if isinstance(v, dict) and 'text' in v and 'info' in v and len(v) == 2)
    if not donors:
        return
    cand = []
    for u, o in sorted(meta.objects(p).items()):
        for n in KINDS.get(o.type, (0, ()))[1]:
            if f'{u}.{n}' not in p.main:
                cand.append(f'{u}.{n}')
    if not cand:
        return
    k = rng.choice(cand)
    d = p.main[rng.choice(donors)]
    p.main[k] = type(d)(d)
    p.main[k]['text'] = encode_code(rng, code_text(rng, is_old(p)))
    return f'new_module {k}'


def localized(p, rng, n=6):
    """texts that follow a language code, anywhere (titles, tooltips, captions)"""
    names = sorted(k for k, v in p.main.items() if not isinstance(v, dict) and v[:1] in (b'\xef', b'{')
                   and re.match(r'[0-9a-f]{8}-', k))
    if not names:
        return
    k = rng.choice(names)
    try:
        roots = p.tree(k)
    except (brace.BraceError, UnicodeDecodeError):
        return
    spots = []

    def walk(t):
        for i, x in enumerate(t):
            if isinstance(x, list):
                walk(x)
            elif i and x[0] == 's' and isinstance(t[i - 1], tuple) and t[i - 1][0] == 's' and LANG.match(t[i - 1][1]):
                spots.append((t, i))

    walk(roots)
    if not spots:
        return
    for t, i in rng.sample(spots, min(n, len(spots))):
        t[i] = ('s', gen.text(rng, 0, 150) if rng.random() < 0.7 else ''.join(
            rng.choice('abcdefgh /:.=+') for _ in range(rng.randint(60, 140))))
    p.set_tree(k, roots)
    return f'localized {k}'


def payload(p, rng):
    """base64 payloads outside of forms: pictures, help pages, binary templates"""
    cand = []
    for k, v in p.main.items():
        if isinstance(v, dict) or not re.match(r'[0-9a-f]{8}-[0-9a-f-]{27}\.', k):
            continue
        if b'#base64:' in v and len(v) < 500000:
            cand.append(k)
    if not cand:
        return
    k = rng.choice(sorted(cand))
    try:
        roots = p.tree(k)
    except (brace.BraceError, UnicodeDecodeError):
        return
    if b'09ccdc77-ea1a-4a6d-ab1c-3435eada2433' in p.main[k]:
        return
    spots = []

    def walk(t):
        for i, x in enumerate(t):
            if isinstance(x, list):
                walk(x)
            elif x[0] == 'b' and x[1]:
                spots.append((t, i))

    walk(roots)
    if not spots:
        return
    t, i = rng.choice(spots)
    same = rng.random() < 0.3  # of the same length
    t[i] = ('b', gen.blob(rng, len(t[i][1]) if same and isinstance(t[i][1], bytes) else
                          rng.choice([1, 2, 3, 47, 48, 49, 96, 97, 500, 5000])))
    p.set_tree(k, roots)
    return f'payload {k}'


def large(p, rng):
    """a help page of more than a megabyte"""
    objs = meta.objects(p)
    cand = sorted(f'{u}.{KINDS[o.type][2]}' for u, o in objs.items()
                  if KINDS.get(o.type, (0, 0, None))[2] is not None)
    there = [k for k in cand if k in p.main]
    if not cand:
        return
    k = rng.choice(there or cand)
    if isinstance(p.main.get(k), dict):
        return
    s = base64.b64encode(gen.blob(rng, rng.randint(760000, 900000))).decode()
    p.main[k] = f'\ufeff{{5,1,"ru",\r\n{{#base64:{s}}}\r\n}}'.encode()
    return f'large {k}'


def raw_asset(p, rng):
    """files that are not brace files and not texts"""
    cand = []
    for k, v in p.main.items():
        if isinstance(v, dict) or not re.match(r'[0-9a-f]{8}-[0-9a-f-]{27}\.', k) or not v:
            continue
        if v[:1] != b'{' and v[:4] != b'\xef\xbb\xbf{':
            try:
                v.decode('utf-8')
            except UnicodeDecodeError:
                cand.append(k)
    if not cand:
        return
    k = rng.choice(sorted(cand))
    p.main[k] = b'\xfe\x98' + gen.blob(rng, len(p.main[k]) - 2 if rng.random() < 0.3 and len(p.main[k]) > 4 else gen.size(rng))
    return f'raw {k}'


def find_list(p, parent, uuid):
    roots = p.tree(parent)
    for lst in meta.include_lists(roots, set(p.main)):
        if ('a', uuid) in lst[2:]:
            return roots, lst
    return None, None


def reorder(p, rng):
    objs = meta.objects(p)
    cand = sorted(u for u, o in objs.items() if len(o.children) > 1)
    rng.shuffle(cand)
    for u in cand:
        roots = p.tree(u)
        ls = [x for x in meta.include_lists(roots, set(p.main)) if len(x) > 3]
        if not ls:
            continue
        lst = rng.choice(ls)
        rest = lst[2:]
        rng.shuffle(rest)
        lst[2:] = rest
        p.set_tree(u, roots)
        return f'reorder {u} {len(rest)}'


def internal(p, u):
    """uuids of objects that live inside the file of `u` but have files of their own (commands)"""
    bases = {k.split('.')[0] for k in p.main if '.' in k} - set(p.main)
    v = p.main.get(u)
    return sorted(b for b in bases if isinstance(v, bytes) and b.encode() in v)


def files_of(p, u):
    return [k for k in p.main if k == u or k.startswith(u + '.')]


def delete(p, rng):
    objs = objects(p)
    if not objs:
        return
    o = rng.choice(sorted(objs.values(), key=lambda x: x.uuid))
    roots, lst = find_list(p, o.parent, o.uuid)
    if lst is None:
        return
    lst.remove(('a', o.uuid))
    lst[1] = ('a', str(len(lst) - 2))
    p.set_tree(o.parent, roots)
    todo = [o.uuid]
    n = 0
    while todo:
        u = todo.pop()
        todo += objs[u].children if u in objs else []
        todo += internal(p, u)
        for k in files_of(p, u):
            del p.main[k]
            n += 1
    return f'delete {o.name} ({n} files)'


def subst(v, mp):
    if isinstance(v, dict):
        return OrderedDict((k, subst(x, mp)) for k, x in v.items())
    for a, b in mp.items():
        v = v.replace(a.encode(), b.encode())
    return v


def clone(p, rng, src=None, name=None):
    """a copy of an object (with everything below it) next to the original"""
    objs = objects(p)
    if not objs:
        return
    o = objs[src] if src else rng.choice(sorted(objs.values(), key=lambda x: x.uuid))
    below, todo = [], [o.uuid]
    while todo:
        u = todo.pop()
        below.append(u)
        todo += [c for c in objs[u].children if c in objs] if u in objs else []
        todo += internal(p, u)
    if len(below) > 8:
        return
    mp = {u: gen.uuid(rng) for u in below}
    taken = {x.name.lower() for x in siblings(objs, o)}
    n = name or gen.ident(rng, 3, 20)
    if n.lower() in taken:
        return
    for u in below:
        for k in files_of(p, u):
            p.main[k.replace(u, mp[u])] = subst(p.main[k], mp)
    nu = mp[o.uuid]
    if not set_header(p, nu, lambda h: h.__setitem__(2, ('s', n))):
        for u in below:
            for k in files_of(p, mp[u]):
                del p.main[k]
        return
    roots, lst = find_list(p, o.parent, o.uuid)
    lst.insert(rng.randint(2, len(lst)), ('a', nu))
    lst[1] = ('a', str(len(lst) - 2))
    p.set_tree(o.parent, roots)
    return f'clone {o.name}->{n} ({len(below)} objects)'


def crowd(p, rng, n):
    """n copies of one small object next to it: real products have thousands of objects"""
    objs = objects(p)
    cand = [o for o in objs.values() if not [c for c in o.children if c in objs] and not internal(p, o.uuid)
            and sum(len(v) if isinstance(v, bytes) else sum(map(len, v.values()))
                    for v in (p.main[k] for k in files_of(p, o.uuid))) < 6000]
    deep = [o for o in cand if o.parent in objs]
    if deep and rng.random() < 0.6:
        cand = deep
    if not cand:
        return
    o = rng.choice(sorted(cand, key=lambda x: x.uuid))
    taken = {x.name.lower() for x in siblings(objs, o)}
    base = gen.ident(rng, 3, 12)
    roots, lst = find_list(p, o.parent, o.uuid)
    new = []
    for j in range(n):
        nu, name = gen.uuid(rng), f'{base}{j}'
        if name.lower() in taken:
            continue
        for k in files_of(p, o.uuid):
            p.main[k.replace(o.uuid, nu)] = subst(p.main[k], {o.uuid: nu})
        if not set_header(p, nu, lambda h: h.__setitem__(2, ('s', name))):
            for k in files_of(p, nu):
                del p.main[k]
            return
        new.append(('a', nu))
    at = rng.randint(2, len(lst))
    lst[at:at] = new
    lst[1] = ('a', str(len(lst) - 2))
    p.set_tree(o.parent, roots)
    return f'crowd {o.name} {len(new)}'


ALL = [rename, synonym, comment, module, module, new_module, localized, localized, payload, raw_asset, reorder, delete, clone, clone,
       twin]


def some(p, rng, n, ops=ALL):
    done = []
    for _ in range(n):
        d = rng.choice(ops)(p, rng)
        if d:
            done.append(d)
    return done


def random_layout(rng):
    if rng.random() < 0.4:
        return None
    return cf.Layout(rng, split=rng.choice([0, 0, 0.3, 0.9]), name_garbage=rng.random() < 0.4,
                     shuffle=rng.random() < 0.4, free_space=rng.choice([0, 0, 0.3]), pad=rng.random() < 0.7)


def old_part(p, rng):
    """the part for old platforms of a product in two parts has modules of its own (kept as they are)"""
    if len(p.conts) != 2:
        return
    m = p.conts[0][1]
    n = rng.randint(1, 4)
    for _ in range(n):
        u = f'{rng.getrandbits(32):08x}-0000-4000-8000-{rng.getrandbits(48):012x}'
        k = rng.random()
        if k < 0.6:
            m[u + '.0'] = OrderedDict((f, rng.randbytes(rng.randint(1, 60)))
                                      for f in rng.sample(['text', 'info', 'image', 'form', 'module'], rng.randint(1, 3)))
        else:
            m[u] = b'\xef\xbb\xbf{1,%d}' % rng.randrange(1000)
    return f'old_part {n}'


def form_parts(p, rng):
    """a form may have a second part, and may have no contents of its own"""
    forms = sorted(u for u, x in objects(p).items() if KINDS.get(x.type, ('',))[0].endswith('Form'))
    done = []
    for u in rng.sample(forms, min(len(forms), rng.randint(1, 3))):
        if rng.random() < 0.6:
            t = [('a', str(rng.randrange(20))), [('s', gen.text(rng, 0, 30)), []], [('a', '1'), ('s', 'x')]]
            p.main[u + '.1'] = b'\xef\xbb\xbf' + brace.dump(t).encode()
        if rng.random() < 0.6:
            p.main.pop(u + '.0', None)
        done.append(u)
    return done and f'form_parts {done}'


SUBSYSTEM = '37f2fa9a-b276-11d4-9435-004095e12fc7'


def deepen(p, rng):
    """subsystems inside subsystems: real ones are nested several levels deep"""
    objs = objects(p)
    cand = sorted(u for u, o in objs.items() if o.type == SUBSYSTEM)
    if not cand:
        return
    o = objs[rng.choice(cand)]
    files = {k: p.main[k] for k in files_of(p, o.uuid)}
    parent, made = o.uuid, 0
    levels = rng.randint(2, 5)

    def into(t, new):
        if not isinstance(t, list):
            return False
        if len(t) >= 2 and t[0] == ('a', SUBSYSTEM) and isinstance(t[1], tuple) and t[1][1].isdigit():
            t[1] = ('a', str(int(t[1][1]) + len(new)))
            t.extend(('a', u) for u in new)
            return True
        return any(into(x, new) for x in reversed(t))

    for _ in range(levels):
        new = []
        for j in range(rng.choice([1, 1, 2, 3])):
            nu = gen.uuid(rng)
            for k, v in files.items():
                p.main[k.replace(o.uuid, nu)] = subst(v, {o.uuid: nu})
            if not set_header(p, nu, lambda h: h.__setitem__(2, ('s', f'{gen.ident(rng, 3, 8)}{made}'))):
                return
            drop(p, nu)
            new.append(nu)
            made += 1
        roots = p.tree(parent)
        if not into(roots, new):
            return
        p.set_tree(parent, roots)
        parent = rng.choice(new)
    return f'deepen {o.name} {levels} {made}'


def drop(p, u):
    """the copy of a subsystem has no subsystems yet"""
    def walk(t):
        if not isinstance(t, list):
            return
        if len(t) >= 2 and t[0] == ('a', SUBSYSTEM) and isinstance(t[1], tuple) and t[1][1].isdigit():
            t[1:] = [('a', '0')]
            return
        for x in t:
            walk(x)
    roots = p.tree(u)
    walk(roots)
    p.set_tree(u, roots)
