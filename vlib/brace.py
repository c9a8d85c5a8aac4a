"""Independent reader/writer for 1C brace files ({a,"b",{...}}), written from the format, not from v8unpack.

Tree: list = braces; ('s', text) = quoted string with "" unescaped; ('a', text) = bare atom;
('b', bytes) = base64 payload (`#base64:...`), ('d', bytes) = `#data:...`, ('B', bytes) = a long bare base64 run
(white space removed).
"""
import base64
import re


class BraceError(Exception):
    pass


_WS = ' \t\r\n'
_B64 = re.compile(r'^[A-Za-z0-9+/=\s]+$')


def to_text(data: bytes) -> str:
    if data[:3] == b'\xef\xbb\xbf':
        return data[3:].decode('utf-8')
    try:
        return data.decode('utf-8')
    except UnicodeDecodeError:
        return data.decode('cp1251')


def parse(text):
    """Parse every top-level object. Returns list of trees. Raises BraceError."""
    pos = 0
    n = len(text)
    roots = []
    stack = []
    cur = None
    expect_value = True

    def skip(p):
        while p < n and text[p] in _WS:
            p += 1
        return p

    pos = skip(pos)
    while pos < n:
        c = text[pos]
        if c == '{':
            new = []
            if cur is not None:
                if not expect_value:
                    raise BraceError(f'missing comma at {pos}')
                cur.append(new)
                stack.append(cur)
            cur = new
            expect_value = True
            pos = skip(pos + 1)
            if pos < n and text[pos] == '}':
                expect_value = False
            continue
        if c == '}':
            if cur is None:
                raise BraceError(f'unbalanced }} at {pos}')
            if expect_value:
                cur.append(('a', ''))
            done = cur
            if stack:
                cur = stack.pop()
            else:
                roots.append(done)
                cur = None
            expect_value = False
            pos = skip(pos + 1)
            continue
        if c == ',':
            if expect_value:
                if cur is not None:
                    cur.append(('a', ''))
                else:
                    raise BraceError(f'comma at {pos}')
            expect_value = True
            pos = skip(pos + 1)
            continue
        if cur is None:
            raise BraceError(f'data outside of braces at {pos}: {text[pos:pos + 20]!r}')
        if not expect_value:
            raise BraceError(f'missing comma at {pos}: {text[max(0,pos-30):pos + 20]!r}')
        if c == '"':
            pos += 1
            parts = []
            while True:
                j = text.find('"', pos)
                if j < 0:
                    raise BraceError('unterminated string')
                parts.append(text[pos:j])
                if j + 1 < n and text[j + 1] == '"':
                    parts.append('"')
                    pos = j + 2
                    continue
                pos = j + 1
                break
            cur.append(('s', ''.join(parts)))
        else:
            j = pos
            while j < n and text[j] not in ',{}"':
                j += 1
            cur.append(atom(text[pos:j]))
            pos = j
        expect_value = False
        pos = skip(pos)
    if cur is not None:
        raise BraceError('unterminated object')
    return roots


def atom(raw):
    raw = raw.strip(_WS)
    m = None
    if raw.startswith('#base64:'):
        m = raw[8:]
    elif raw.startswith('#data:'):
        m = raw[6:]
    elif len(raw) > 60 and _B64.match(raw):
        m = raw
    if m is not None:
        try:
            compact = re.sub(r'\s', '', m)
            return ('B' if raw[0] != '#' else 'd' if raw[1] == 'd' else 'b', base64.b64decode(compact, validate=True))
        except Exception:
            pass
    return ('a', re.sub(r'[\r\n]+', '', raw))


def norm(tree):
    """Canonical form: string line ends \r\n and lone \r become \n."""
    if isinstance(tree, list):
        return [norm(x) for x in tree]
    k, v = tree
    if k == 's':
        return (k, v.replace('\r\n', '\n').replace('\r', '\n'))
    return tree


def diff(a, b, path=(), out=None, limit=20):
    """List of (path, left, right) differences between two trees."""
    if out is None:
        out = []
    if len(out) >= limit:
        return out
    if isinstance(a, list) and isinstance(b, list):
        for i in range(max(len(a), len(b))):
            if i >= len(a):
                out.append((path + (i,), None, b[i]))
            elif i >= len(b):
                out.append((path + (i,), a[i], None))
            else:
                diff(a[i], b[i], path + (i,), out, limit)
            if len(out) >= limit:
                break
    elif a != b:
        out.append((path, a, b))
    return out


def dump(tree, first=True):
    """Serialise one tree the way the platform does (nested objects on their own line)."""
    out = []
    _dump(tree, out, True)
    return ''.join(out)


def _dump(tree, out, first):
    out.append('{' if first else '\r\n{')
    last = len(tree) - 1
    for i, e in enumerate(tree):
        if isinstance(e, list):
            _dump(e, out, False)
            if i == last:
                out.append('\r\n')
        else:
            out.append(dump_atom(e))
        if i != last:
            out.append(',')
    out.append('}')


def dump_atom(e):
    k, v = e
    if k == 's':
        return '"' + v.replace('"', '""') + '"'
    if k == 'b':
        s = base64.b64encode(v).decode()
        return '#base64:' + '\r\n'.join(s[i:i + 64] for i in range(0, len(s), 64))
    if k == 'd':
        return '#data:' + base64.b64encode(v).decode()
    if k == 'B':
        s = base64.b64encode(v).decode()
        return '\r\n'.join(s[i:i + 64] for i in range(0, len(s), 64))
    return v
