"""C26: templates, pictures, help pages and other payloads are files of their own and come back byte for byte."""
import base64
import json
import os
import re

from vlib import brace, gen, meta, mutate, product as P, rt
from vlib.kinds import KINDS
from vlib.core import Violation, case_rng

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=150, thorough=1500),
    rule='templates of every type, common pictures, help pages, splash screens, packages and references of real '
         'products get generated payloads (any bytes, empty, around the size limits, text encodings, several '
         'languages) and comments that name an extension, or lose their payload; each payload must appear as a '
         'source file that holds exactly its bytes, the build must give the same product; then the files are '
         'replaced and the built product must hold exactly the new payloads; distinct = (kind of payload, size, '
         'comment)',
    require={'payloads_seen': 80, 'payload_edits': 60, 'absent_payloads': 8, 'data_payloads': 20, 'other_prefixes': 15, 'named_extensions': 15, 'seen_xdto': 10, 'seen_splash': 20, 'root_files': 60, 'seen_wsref': 20, 'seen_html': 8, 'seen_help': 30, 'seen_predefined': 8, 'assertions': 300, 'distinct': 60},
    assumptions=['line ends of text templates are normalised (text sources)'],
)

TEMPLATE = '3daea016-69b7-4ed4-9453-127911372fe6'
COMMON_TEMPLATE = '0c89c792-16c3-11d5-b96b-0050bae0a95d'
PICTURE = '7dcd43d9-aca5-4926-b549-1842e6a4e8cf'
XDTO = 'cc9df798-7c94-4616-97d2-7aa0b7bc515e'
WSREF = 'd26096fb-7a5d-4df9-af63-47d04771fa9b'
SUBSYSTEM = '37f2fa9a-b276-11d4-9435-004095e12fc7'

TYPES = {'table': '0', 'base64': '1', 'active_doc': '2', 'html': '3', 'text': '4', 'geographic': '5', 'scheme': '6',
         'design': '7', 'graphic_scheme': '8', 'extension': '9'}
RAW = {'table', 'active_doc', 'geographic', 'scheme', 'design', 'graphic_scheme'}
COMMENTS = ['', '', '', 'png', 'архив zip', 'dll', 'bin', 'Картинка.png', 'описание json', 'html', 'bsl', 'txt', 'id',
            'mxl', 'c1b64', 'слово слишкомдлинное', 'a b c xml', 'тхт', ' gif ', 'id.json', '../x', 'a/b', 'xhtml', 'mp3',
            'звук mp3', '7z', 'архив 7z', 'JSON', 'Bsl', 'C1B64', 'docx', 'PNG', 'ID', 'c1b6', 'x', 'h265v', 'jsonx', '1']


def cases(tier, seed):
    weights = dict(cf=6, cf16=8, epf803=6, erf=4, cfe=1, apam=1)
    k = 4 if tier == 'quick' else 50
    i = 0
    for r in range(k):
        for name, n in weights.items():
            for j in range(n):
                yield dict(kind=name, seed=seed, i=i)
                i += 1


def size(rng):
    return rng.choice([0, 0, 1, 2, 3, 47, 48, 49, 63, 64, 65, 500, 3000, rng.randint(0, 20000)])


def blob(rng, n):
    b = gen.blob(rng, n)
    return b


def text_blob(rng):
    s = gen.text(rng, 0, 200).replace('\x85', ' ').replace('\u2028', ' ')
    e = rng.choice(['sig', 'sig', 'sig', 'plain', 'u16'])
    if e == 'plain':
        return s.lstrip('\ufeff').encode()
    if e == 'u16':
        return s.encode('utf-16')
    return b'\xef\xbb\xbf' + s.encode()


def b64file(rng, data, style):
    """a file {1,{#base64:...}} as the platform writes it, or {1,{#data:...}}"""
    s = base64.b64encode(data).decode()
    if style == '#data:':
        return f'\ufeff{{1,\r\n{{#data:{s}}}\r\n}}'.encode()
    s = '\r\n'.join(s[i:i + 64] for i in range(0, len(s), 64))
    return f'\ufeff{{1,\r\n{{#base64:{s}}}\r\n}}'.encode()


def sort(rng, obs):
    """a payload is written as #base64:... or as #data:..."""
    if rng.random() < 0.2:
        obs.count('data_payloads')
        return 'd'
    return 'b'


def html_file(rng, pages, sort='b'):
    t = [('a', '5'), ('a', str(len(pages)))]
    for lang, data in pages:
        t += [('s', lang), [(sort, data)]]
    return b'\xef\xbb\xbf' + brace.dump(t).encode()


def picture_file(rng, data, sort='b'):
    t = [('a', '1'), [('a', '0'), ('a', '0'), ('a', '-1'), ('a', '-1')], [[(sort, data)]]]
    return b'\xef\xbb\xbf' + brace.dump(t).encode()


def add_object(p, type_uuid, uuid, tree, files):
    """into the (empty) list of the type at the root"""
    root = meta.root_uuid(p)
    roots = p.tree(root)

    def walk(t):
        if not isinstance(t, list):
            return False
        if len(t) >= 2 and t[0] == ('a', type_uuid) and isinstance(t[1], tuple) and t[1][1].isdigit():
            t[1] = ('a', str(int(t[1][1]) + 1))
            t.append(('a', uuid))
            return True
        return any(walk(x) for x in t)

    if not walk(roots):
        return False
    p.set_tree(root, roots)
    p.main[uuid] = b''
    p.set_tree(uuid, [tree])
    for k, v in files.items():
        p.main[f'{uuid}.{k}'] = v
    return True


def header(uuid, name):
    return [('a', '3'), [('a', '1'), ('a', '0'), ('a', uuid)], ('s', name), [('a', '1'), ('s', 'ru'), ('s', name)],
            ('s', ''), ('a', '0'), ('a', '0'), ('a', '00000000-0000-0000-0000-000000000000'), ('a', '0')]


def set_comment(p, u, text):
    mutate.set_header(p, u, lambda h: h.__setitem__(4, ('s', text)))


def comment_of(p, u):
    h = meta.find_header(p.tree(u), u)
    return h and h[4][1]


def template_type(p, u, value):
    roots = p.tree(u)

    def walk(t):
        """the list {n, type, header}"""
        if not isinstance(t, list):
            return False
        for i, x in enumerate(t):
            if isinstance(x, list) and len(x) >= 5 and isinstance(x[1], list) and len(x[1]) == 3 and x[1][2] == ('a', u):
                # common templates keep the type beside the header as well
                for j, y in enumerate(t):
                    if j and isinstance(y, tuple) and y[0] == 'a' and j == 1 or j == 2 and i == 1 \
                            and isinstance(y, tuple):
                        t[j] = ('a', value)
                        return True
            if walk(x):
                return True
        return False

    if not walk(roots):
        return False
    p.set_tree(u, roots)
    return True


def root_object(p):
    """uuid the root object's own files are named after"""
    def walk(t):
        if not isinstance(t, list):
            return None
        for a, b in zip(t, t[1:]):
            if isinstance(a, list) and len(a) == 3 and a[:2] == [('a', '1'), ('a', '0')] and isinstance(b, tuple) \
                    and b[0] == 's':
                return a[2][1]
        for x in t:
            got = walk(x)
            if got:
                return got
        return None
    return walk(p.tree(meta.root_uuid(p))[0][3] if len(p.tree(meta.root_uuid(p))[0]) > 3 else [])


def case_kind(p):
    if 'copyinfo' in p.main:
        return 'external'
    return 'extension' if 'configinfo' in p.main else 'configuration'


def gen_tree(rng, depth=0):
    out = [('a', str(rng.randint(0, 9)))]
    for _ in range(rng.randint(0, 4)):
        x = rng.random()
        if x < 0.3 and depth < 3:
            out.append(gen_tree(rng, depth + 1))
        elif x < 0.6:
            out.append(('s', gen.text(rng, 0, 30)))
        elif x < 0.8:
            out.append(('a', gen.uuid(rng)))
        else:
            out.append(('a', str(rng.randint(0, 10 ** 12))))
    return out


def plant(p, rng, obs):
    """-> [(kind, uuid, number, payload, raw file, make)]: make(payload) gives the file"""
    out = []
    objs = meta.objects(p)
    for u, o in sorted(objs.items()):
        k = f'{u}.0'
        if o.type in (TEMPLATE, COMMON_TEMPLATE):
            kind = rng.choice(sorted(TYPES))
            if not template_type(p, u, TYPES[kind]):
                continue
            if rng.random() < 0.7:
                set_comment(p, u, rng.choice(COMMENTS))
            p.main.pop(k, None)
            if rng.random() < 0.15:
                obs.count('absent_payloads')
                out.append((kind, u, '0', None, None))
                continue
            make = None
            if kind in RAW:
                data = blob(rng, size(rng))
                make = lambda d: d
            elif kind == 'text':
                data = text_blob(rng)
                make = lambda d: d
            elif kind == 'html':
                data = blob(rng, max(1, size(rng)))
                if rng.random() < 0.04:
                    data = rng.randbytes(rng.choice([700000, 740000, 760000, 1100000]))
                rest = [('en', blob(rng, rng.randint(0, 80)))] if rng.random() < 0.3 else []
                make = lambda d, rest=rest, sort=sort(rng, obs): html_file(rng, [('ru', d)] + rest, sort)
            else:
                style = rng.choice(['#base64:', '#base64:', '#data:'])
                if rng.random() < 0.08:
                    p.main[k] = rng.choice(['\ufeff{1,\r\n{}\r\n}', '\ufeff{1,\r\n{""}\r\n}']).encode()
                    obs.count('absent_payloads')
                    out.append((kind, u, '0', None, None))
                    continue
                if style != '#base64:':
                    obs.count('other_prefixes')
                data = blob(rng, size(rng))
                make = lambda d, style=style: b64file(rng, d, style)
            p.main[k] = make(data)
            out.append((kind, u, '0', data, make))
        elif o.type == PICTURE:
            if rng.random() < 0.7:
                set_comment(p, u, rng.choice(COMMENTS))
            if rng.random() < 0.15:
                p.main.pop(k, None)
                obs.count('absent_payloads')
                out.append(('picture', u, '0', None, None))
                continue
            if rng.random() < 0.12:  # a picture that has no data
                obs.count('absent_payloads')
                pic = rng.choice([[('a', '')], [], [[]]])
                p.main[k] = b'\xef\xbb\xbf' + brace.dump(
                    [('a', '1'), [('a', '0'), ('a', '1'), ('a', '-1'), ('a', '-1')], pic]).encode()
                out.append(('picture', u, '0', None, None))
                continue
            data = blob(rng, max(1, size(rng)))
            make = lambda d, sort=sort(rng, obs): picture_file(rng, d, sort)
            p.main[k] = make(data)
            out.append(('picture', u, '0', data, make))
        elif o.type == SUBSYSTEM:
            if rng.random() < 0.7:
                p.main[f'{u}.1'] = b'\xef\xbb\xbf' + brace.dump(gen_tree(rng)).encode()
            if rng.random() < 0.7:
                data = blob(rng, max(1, size(rng)))
                make = lambda d, sort=sort(rng, obs): html_file(rng, [('ru', d)], sort)
                p.main[k] = make(data)
                out.append(('help', u, '0', data, make))
        else:
            name, mods, hlp, pre = KINDS.get(o.type, (0, 0, None, None))
            if name == 'ExchangePlan' and rng.random() < 0.7:
                p.main[f'{u}.1'] = b'\xef\xbb\xbf' + brace.dump(gen_tree(rng)).encode()
                obs.count('seen_plan_info')
            if name == 'BusinessProcess' and rng.random() < 0.7:
                data = blob(rng, size(rng))
                p.main[f'{u}.7'] = data
                out.append(('route', u, '7', data, lambda d: d))
            if hlp and f'{u}.{hlp}' not in p.main and rng.random() < 0.3:
                data = blob(rng, max(1, size(rng)))
                make = lambda d, sort=sort(rng, obs): html_file(rng, [('ru', d)], sort)
                p.main[f'{u}.{hlp}'] = make(data)
                out.append(('help', u, hlp, data, make))
            if pre and f'{u}.{pre}' not in p.main and rng.random() < 0.5:
                data = blob(rng, size(rng))
                p.main[f'{u}.{pre}'] = data
                out.append(('predefined', u, pre, data, lambda d: d))
    own = root_object(p)
    if own and case_kind(p) in ('configuration', 'extension'):
        n = ['4', '8', '9', '10', 'a', 'b', 'c', 'd', 'e', 'f'] if case_kind(p) == 'configuration' else ['8', '9', 'a']
        for x in rng.sample(n, rng.randint(0, len(n))):
            if f'{own}.{x}' not in p.main:
                p.main[f'{own}.{x}'] = b'\xef\xbb\xbf' + brace.dump(gen_tree(rng)).encode()
                obs.count('root_files')
    if own and case_kind(p) == 'configuration' and f'{own}.2' not in p.main:
        x = rng.random()
        if x < 0.25:  # no picture
            pic = rng.choice([[('a', '')], [], [[]], [[('b', b'')]]])
            p.main[f'{own}.2'] = b'\xef\xbb\xbf' + brace.dump(
                [('a', '1'), [('a', '0'), ('a', '1'), ('a', '-1'), ('a', '-1')], pic]).encode()
            obs.count('absent_payloads')
        elif x < 0.9:
            data = blob(rng, max(1, size(rng)))
            make = lambda d, sort=sort(rng, obs): picture_file(rng, d, sort)
            p.main[f'{own}.2'] = make(data)
            out.append(('splash', own, '2', data, make))
    if any(True for u, o in objs.items() if o.type == PICTURE):
        if rng.random() < 0.7:
            u = gen.uuid(rng)
            data = blob(rng, size(rng))
            if add_object(p, XDTO, u, [('a', '1'), [('a', '1'), header(u, 'Пакет1'), ('s', 'http://x')], ('a', '0')],
                          {'0': data}):
                out.append(('xdto', u, '0', data, lambda d: d))
        if rng.random() < 0.7:
            u = gen.uuid(rng)
            inner = type(p.main)() if not isinstance(p.main, dict) else {}
            inner['info'] = b'\xef\xbb\xbf{3,1,0,"",0}'
            inner[gen.ident(rng)] = blob(rng, size(rng))
            inner['1'] = blob(rng, size(rng))
            if add_object(p, WSREF, u, [('a', '1'), [('a', '1'), ('s', 'http://y'), header(u, 'Ссылка1')], ('a', '0')],
                          {'0': inner}):
                for n in inner:
                    out.append(('wsref', u, '0/' + n, inner[n], lambda d: d))
    return out


def folders(src):
    """uuid -> folder of the object"""
    out = {}
    for rel, data in P.read_dir(src).items():
        if rel.endswith('.id.json'):
            out[json.loads(data.decode('utf-8-sig'))['uuid']] = os.path.dirname(rel)
        elif rel == 'Configuration.json':
            out[json.loads(data.decode('utf-8-sig'))['uuid']] = ''
    return out


def norm(kind, data):
    if kind != 'text':
        return data
    if data[:2] in (b'\xff\xfe', b'\xfe\xff'):
        return ('16', data.decode('utf-16').replace('\r\n', '\n').replace('\r', '\n'))
    return data.replace(b'\r\n', b'\n').replace(b'\r', b'\n')


def locate(p, q_tree, folder, kind, data, raw):
    """source files of the object's folder that hold the payload (bare, or as the file is)"""
    out = []
    for rel, got in q_tree.items():
        d, b = os.path.split(rel)
        if not (d == folder or kind == 'wsref' and d.startswith(folder + '/')):
            continue
        if norm(kind, got) == norm(kind, data):
            out.append((rel, 'bare'))
        elif got == raw:
            out.append((rel, 'file'))
    return out


def named(comment):
    """extension the comment of an object names, None: none for sure"""
    word = comment.strip().split(' ')[-1] if comment.strip() else ''
    if re.fullmatch('[0-9A-Za-z]{1,5}', word) and word.lower() not in ('json', 'bsl', 'c1b64'):
        return word
    return None


def put(p, u, n, data):
    if '/' in n:
        a, b = n.split('/', 1)
        p.main[f'{u}.{a}'] = type(p.main[f'{u}.{a}'])(p.main[f'{u}.{a}'])
        p.main[f'{u}.{a}'][b] = data
    else:
        p.main[f'{u}.{n}'] = data


def get(p, u, n):
    if '/' in n:
        a, b = n.split('/', 1)
        return p.main[f'{u}.{a}'][b]
    return p.main[f'{u}.{n}']


def run(case, obs):
    rng = case_rng('C26', case['seed'], case['i'])
    p = rt.defuse(P.seed(case['kind']))
    items = plant(p, rng, obs)
    p = P.parse(p.dump(None, 1)) if False else p
    raw, src, out, q, modes = rt.roundtrip(obs, p, rng)
    tree = P.read_dir(src)
    where = folders(src)
    places = []
    said = {u: comment_of(p, u) for k, u, n, d, m in items if k in ('picture', 'base64', 'extension')}
    for kind, u, n, data, make in items:
        obs.sig(kind, None if data is None else len(data))
        if data is None:
            continue
        if u not in where:
            raise Violation('payload-object-lost:' + kind, f'object {u} has no folder')
        hits = locate(p, tree, where[u], kind, data, get(p, u, n))
        # an empty payload needs no file
        if not hits and data:
            obs.violation('payload-not-in-sources:' + kind,
                          f'{kind} payload of {len(data)} bytes of {where[u]} is in no source file '
                          f'({sorted(x for x in tree if x.startswith(where[u] + "/"))})')
        obs.count('payloads_seen')
        obs.count('assertions')
        obs.count('seen_' + kind)
        if len(hits) == 1:
            ext = hits[0][0].rsplit('.', 1)[-1]
            comment = said.get(u)
            if kind in ('picture', 'base64', 'extension') and comment is not None and hits[0][1] == 'bare' and data:
                if named(comment):
                    obs.count('named_extensions')
                    obs.count('assertions')
                    obs.sig('named', named(comment))
                    if ext != named(comment):
                        obs.violation('extension-not-as-named',
                                      f'comment {comment!r} of a {kind}: the payload is in {hits[0][0]}')
                elif ext.lower() in ('json', 'bsl'):
                    obs.violation('extension-taken', f'comment {comment!r} of a {kind}: the payload is in {hits[0][0]}')
            places.append((kind, u, n, data, make) + hits[0])
    rt.judge(obs, p, q, out)
    if obs.violations:
        return
    # edits
    want = p.copy()
    edits = rng.sample(places, min(len(places), rng.randint(1, 12)))
    for kind, u, n, data, make, rel, how in edits:
        new = text_blob(rng) if kind == 'text' else blob(rng, max(0 if kind in RAW else 1, size(rng)))
        file = make(new)
        if how == 'file' and kind in ('base64', 'extension', 'html'):
            P.write(os.path.join(src, rel), file)
        else:
            P.write(os.path.join(src, rel), new)
        put(want, u, n, file)
        obs.count('payload_edits')
        obs.count('assertions')
    out2 = P.build(obs, src, 'build-raises:edited')
    q2 = P.parse_built(out2)
    rt.judge(obs, want, q2, out2, ':edited')
    obs.sample(dict(product=case['kind'], payloads=[(k, None if d is None else len(d)) for k, u, n, d, m in items][:12]))
