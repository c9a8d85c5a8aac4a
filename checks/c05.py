"""C05: brace files survive decoding and encoding: every value in its place, for every content of strings and blobs."""
import base64
import json
import os
import re

from vlib import brace, env, gen, product as P
from vlib.core import Violation, case_rng

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=200, thorough=1500),
    rule='random brace documents in the platform\'s line convention (deep nesting, strings with quotes, commas, braces, '
         'line breaks at every position, base64 in its three spellings, long ASCII strings) and real brace files of the '
         'sample products with strings replaced; decoded, passed through JSON, encoded again, and the text judged by an '
         'independent parser; distinct = hash of the document',
    require={'documents': 800, 'values': 50000, 'strings_multiline': 500, 'long_ascii_strings': 300, 'blobs': 300,
             'distinct': 600},
    assumptions=['the platform writes every nested object on a new line and never breaks a line after a plain value'],
)

ATOMS = ['0', '1', '-1', '4294967295', '0.5', '-1.25e-7', '00010101000000', '20190807172050', 'N', 'B', 'Pattern', 'U',
         '"S"']


def rand_string(rng):
    k = rng.random()
    if k < 0.12:
        return ''
    if k < 0.3:
        return gen.text(rng, 0, 12)
    if k < 0.45:
        return gen.text(rng, 0, 120)
    if k < 0.55:
        return '\r\n'.join(gen.text(rng, 0, 10, nl=False) for _ in range(rng.randint(1, 5)))
    if k < 0.75:  # long plain ASCII: paths, addresses, English captions, hashes
        n = rng.randint(60, 200)
        al = rng.choice(['abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/',
                         'abcdefghij 0123 /.:?&=-_', 'abcDEF=', 'abc012"'])
        return ''.join(rng.choice(al) for _ in range(n))
    if k < 0.9:
        return rng.choice(['\n', '\n\n', '"', '""', '"\n', '\n"', '",', ',"', '{', '}', '},\n{', '",\n{', '{"', '"}',
                           '\n{#base64:AAAA}', '#base64:AAAA', '##base64:', '\n}\n', ',"\n', '\n",', '",\n"', '\n,\n',
                           "'", '\\', '\\n', '\t', ' ', '#', '|', 'x\n', '\nx'])
    return ''.join(rng.choice(['\n', '"', ',', '{', '}', 'a', ',"\n', '"\n', '\n{', '\n}']) for _ in
                   range(rng.randint(2, 9)))


def rand_atom(rng):
    k = rng.random()
    if k < 0.25:
        return ('a', gen.uuid(rng))
    if k < 0.6:
        return ('a', rng.choice(ATOMS[:-1]))
    return ('a', str(rng.randint(-10 ** 9, 10 ** 12)))


def rand_tree(rng, depth, obs):
    n = rng.choice([1, 1, 2, 3, 4, 6, 9]) if depth else rng.randint(1, 5)
    if depth >= 2 and rng.random() < 0.06:
        blob = rng.randbytes(rng.choice([0, 1, 2, 3, 47, 48, 49, 95, 96, 97, 500, 3000]))
        obs.count('blobs')
        return [('b', blob)]
    if depth >= 2 and rng.random() < 0.02:
        obs.count('blobs')
        return [('a', '1'), ('B', rng.randbytes(rng.choice([49, 96, 97, 144, 200, 999])))]
    out = []
    for _ in range(n):
        k = rng.random()
        if rng.random() < 0.04:  # neighbours of several lines each: one ends and the next begins on one line
            for _ in range(rng.randint(2, 3)):
                out.append(('s', rng.choice(['\n', '\r\n', '', 'а\n']) + rng.choice(['', 'б', 'б""', '"']) + rng.choice(
                    ['\n', '\r\n', '\nв', ''])))
                if rng.random() < 0.4:
                    out.append(rand_atom(rng))
        if k < 0.3 and depth < 9:
            out.append(rand_tree(rng, depth + 1, obs))
        elif k < 0.62:
            out.append(('s', rand_string(rng)))
        else:
            out.append(rand_atom(rng))
    return out


def cases(tier, seed):
    for i in range(120 if tier == 'quick' else 1200):
        yield dict(kind='random', seed=seed, i=i, per=14)
    names = ['erf', 'epf803', 'epf802', 'cfe', 'apamold', 'cf16'] + ([] if tier == 'quick' else ['apam', 'cf'])
    for name in names:
        for i in range(2 if tier == 'quick' else 10):
            yield dict(kind='real', seed=seed, i=i, name=name)


def spell(roots, rng):
    eol64 = rng.choice(['\r\r\n', '\r\n'])
    text = (',' + '\r\n').join(brace.dump(t) for t in roots)

    def fix(m):
        one = m.group(0).replace('\r\n', '')
        if rng.random() < 0.2:
            return one  # the payload may also stand on one line
        return m.group(0).replace('\r\n', eol64)

    # only real payloads: {#base64: directly after a brace at the start of a line, outside of strings
    out, pos = [], 0
    in_str = False
    for m in re.finditer(r'"|\{#base64:[A-Za-z0-9+/=\r\n]*\}', text):
        if m.group(0) == '"':
            in_str = not in_str
        elif not in_str:
            out.append(text[pos:m.start()])
            out.append(fix(m))
            pos = m.end()
    out.append(text[pos:])
    return ''.join(out)


def stats(obs, t):
    if isinstance(t, list):
        for x in t:
            stats(obs, x)
        return
    obs.count('values')
    if t[0] == 's':
        if '\n' in t[1]:
            obs.count('strings_multiline')
        if len(t[1]) > 62 and t[1].isascii():
            obs.count('long_ascii_strings')


def expect(t):
    """what the decoder has to deliver (strings keep quotes, doubled inside)"""
    if isinstance(t, list):
        return [expect(x) for x in t]
    if t[0] == 's':
        return '"' + t[1].replace('\r\n', '\n').replace('\r', '\n').replace('"', '""') + '"'
    if t[0] == 'a':
        return t[1]
    return t


def same(exp, got, path=()):
    """-> path of the first difference or None"""
    if isinstance(exp, list):
        if not isinstance(got, list) or len(exp) != len(got):
            return path
        for i, (a, b) in enumerate(zip(exp, got)):
            r = same(a, b, path + (i,))
            if r is not None:
                return r
        return None
    if isinstance(exp, tuple):
        if not isinstance(got, str):
            return path
        raw = re.sub(r'^##?base64:', '', got)
        try:
            return None if base64.b64decode(raw) == exp[1] else path
        except ValueError:
            return path
    return None if exp == got else path


def judge(obs, data: bytes, want, label, strict_tree=True):
    d = obs.dir('w')
    with open(os.path.join(d, 'f'), 'wb') as f:
        f.write(data)
    obs.count('documents')
    H = env.helper
    shown = data.decode('utf-8', 'replace')
    try:
        got = H.brace_file_read(d, 'f')
    except Exception as e:
        raise Violation(f'{label}/decode-raises', f'{P.err_text(e)}', shown[:1500])
    if strict_tree:
        e = [expect(t) for t in want]
        p = same(e, got)
        if p is not None:
            raise Violation(f'{label}/decode-differs', f'at {list(p)}: expected {P.brief(pick(e, p))}, decoded '
                                                       f'{P.brief(pick(got, p))}', shown[:1500])
    H.json_write(got, d, 'j.json')
    got2 = H.json_read(d, 'j.json')
    try:
        H.brace_file_write(got2, d, 'g')
    except Exception as e:
        raise Violation(f'{label}/encode-raises', f'{P.err_text(e)}', shown[:1500])
    raw = open(os.path.join(d, 'g'), 'rb').read()
    try:
        back = brace.parse(P.strip_tail(brace.to_text(raw)))
    except (brace.BraceError, UnicodeDecodeError) as e:
        raise Violation(f'{label}/encoded-illegal', f'{e}', dict(src=shown[:800], out=raw[:800].decode('utf-8', 'replace')))
    a, b = brace.norm(want), brace.norm(back)
    if a != b:
        df = brace.diff(a, b, limit=2)
        raise Violation(f'{label}/encode-differs', '; '.join(f'at {list(p)}: {P.brief(x)} -> {P.brief(y)}'
                                                             for p, x, y in df), shown[:1500])
    if not raw.startswith(b'\xef\xbb\xbf'):
        raise Violation(f'{label}/no-bom', 'the file written has no byte order mark')
    # encoding what was encoded changes nothing
    got3 = H.brace_file_read(d, 'g')
    H.brace_file_write(got3, d, 'h')
    if open(os.path.join(d, 'h'), 'rb').read() != raw:
        raise Violation(f'{label}/not-stable', 'decoding and encoding the written file again gives another file')
    obs.count('assertions', 4)


def pick(t, path):
    for i in path:
        t = t[i]
    return t


def run(case, obs):
    rng = case_rng('C05' + case['kind'], case['seed'], f'{case.get("name")}{case["i"]}')
    if case['kind'] == 'random':
        for _ in range(case['per']):
            roots = [rand_tree(rng, 0, obs) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            if len(roots[0]) > 1 and roots[0][0] == ('a', '1') and isinstance(roots[0][1], list) \
                    and roots[0][1][0][0] == 'b':
                continue  # the head of a file that is one blob; the tool copies those as they are
            for t in roots:
                stats(obs, t)
            text = spell(roots, rng)
            want = brace.parse(text)
            enc = rng.choice(['utf-8-sig', 'utf-8-sig', 'utf-8', 'cp1251'])
            try:
                data = text.encode(enc)
            except UnicodeEncodeError:
                data = text.encode('utf-8-sig')
            if enc == 'cp1251':
                try:
                    data.decode('utf-8')
                    data = text.encode('utf-8-sig')
                except UnicodeDecodeError:
                    obs.count('cp1251')
            if data[:3] != b'\xef\xbb\xbf' and text[:1] == '\ufeff':
                continue
            obs.sig(data)
            judge(obs, data, want, 'random')
            obs.sample(dict(document=text[:300]))
        return
    p = P.seed(case['name'])
    for k, v in p.flat().items():
        if not v.lstrip(b'\xef\xbb\xbf')[:1] == b'{':
            continue
        try:
            want = brace.parse(P.strip_tail(brace.to_text(v)))
        except (brace.BraceError, UnicodeDecodeError):
            continue
        if len(want) == 1 and len(want[0]) == 2 and want[0][0] == ('a', '1') and isinstance(want[0][1], list) \
                and want[0][1] and want[0][1][0][0] in 'bB':
            continue  # a file that is one blob; the tool copies those as they are
        if case['i']:
            mutate(want, rng, 0.15)
            data = b'\xef\xbb\xbf' + ',\r\n'.join(brace.dump(t) for t in want).encode('utf-8')
        else:
            data = v
        for t in want:
            stats(obs, t)
        obs.sig(data)
        judge(obs, data, want, f'real/{case["name"]}', strict_tree=False)


def mutate(t, rng, prob):
    for i, x in enumerate(t):
        if isinstance(x, list):
            mutate(x, rng, prob)
        elif x[0] == 's' and rng.random() < prob:
            t[i] = ('s', rand_string(rng))
