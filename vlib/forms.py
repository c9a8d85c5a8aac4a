"""Managed forms, read from the platform's format alone: elements are (type uuid, description) pairs after a count;
edits are expressed once and applied both to the raw form and to elem.json."""
import copy
import json
import lzma
import os

from . import brace, gen, product as P

TYPES = {'77ffcc29-7f2d-4223-b22f-19666e7250ba': 'Field', 'a9f3b1ac-f51b-431e-b102-55a69acdecad': 'Button',
         '3d3cb80c-508b-41fa-8a18-680cdf5f1712': 'Decoration', 'cd5394d0-7dda-4b56-8927-93ccbe967a01': 'Group',
         '143c00f7-a42d-4cd7-9189-88e4467dc768': 'Table', 'c5259a1d-518a-4afd-b98d-0176027e4feb': 'ItemAddition'}
_forms = {}


def stored():
    if not _forms:
        with lzma.open(os.path.join(P.SEEDS, 'forms.xz')) as f:
            for k, v in json.loads(f.read()).items():
                _forms[k] = brace.parse(P.strip_tail(v))
    return _forms


def managed_names(p):
    return [k for k, v in p.main.items() if isinstance(v, bytes) and k.endswith('.0') and is_managed(p, k)]


def is_managed(p, k):
    """the form's own description says so: an ordinary form is a folder, other `.0` files hold no props list"""
    try:
        t = brace.parse(P.strip_tail(brace.to_text(p.main[k])))
    except (brace.BraceError, UnicodeDecodeError):
        return False
    t = t[0] if t else []
    return len(t) >= 6 and isinstance(t[1], list) and len(t[1]) > 20 and t[0] in (('a', '4'), ('a', '3')) \
        and isinstance(t[3], list) and isinstance(t[4], list) and isinstance(t[5], list)


def slot(n):
    """position of the count of the non-empty list of child elements of a node, or None"""
    for i, x in enumerate(n):
        if isinstance(x, tuple) and x[0] == 'a' and x[1].isdigit() and int(x[1]) > 0:
            k = int(x[1])
            if i + 2 * k < len(n) and all(_type(n[i + 1 + 2 * j]) and isinstance(n[i + 2 + 2 * j], list)
                                          for j in range(k)):
                return i
    return None


def _type(x):
    return TYPES.get(x[1]) if isinstance(x, tuple) else None


def children(n):
    i = slot(n)
    return [] if i is None else [(n[i + 1 + 2 * j], n[i + 2 + 2 * j]) for j in range(int(n[i][1]))]


def set_children(n, i, kids):
    k = int(n[i][1])
    n[i:i + 1 + 2 * k] = [('a', str(len(kids)))] + [x for kid in kids for x in kid]


def name_pos(n):
    return next((i for i, x in enumerate(n) if isinstance(x, tuple) and x[0] == 's' and x[1]), None)


def name(n):
    return n[name_pos(n)][1]


def rename(n, f):
    n[name_pos(n)] = ('s', f(name(n)))
    for _, c in children(n):
        rename(c, f)


def tree(n):
    """[(name, type, children)]"""
    return [(name(c), _type(u), tree(c)) for u, c in children(n)]


def paths(t, pre=''):
    for nm, ty, ch in t:
        q = f'{pre}/{nm}' if pre else nm
        yield q, ty
        yield from paths(ch, q)


def find(root, path):
    n = root
    for part in path:
        n = next((c for u, c in children(n) if name(c) == part), None)
        if n is None:
            raise KeyError(path)
    return n


# ------------------------------------------------------------------------------------------------- element edits
def some_edit(root, rng, used):
    """a random edit of the element tree, as data"""
    all_ = []
    boxes = [()]

    def walk(n, pre):
        for u, c in children(n):
            q = pre + (name(c),)
            all_.append((q, _type(u)))
            if slot(c) is not None:
                boxes.append(q)
            walk(c, q)

    walk(root, ())
    if not all_:
        return None
    k = rng.choice(['copy', 'copy', 'copy', 'move', 'delete', 'shuffle', 'empty', 'nest'])
    path, ty = rng.choice(all_)
    if k == 'delete' and len(all_) > 3:
        return dict(op='delete', path=path)
    if k == 'shuffle':
        box = rng.choice(boxes)
        m = len(children(find(root, box)))
        perm = list(range(m))
        rng.shuffle(perm)
        return dict(op='shuffle', path=box, perm=perm)
    if k == 'empty' and len(boxes) > 1 and len(all_) > 6:
        return dict(op='empty', path=rng.choice(boxes[1:]))
    if k in ('move', 'nest'):
        cand = [b for b in boxes if b[:len(path)] != path and b != path[:-1]]
        if k == 'nest':
            cand = sorted(cand, key=len)[-2:]
        if cand:
            return dict(op='move', path=path, box=rng.choice(cand), at=rng.random())
    suffix = '_' + gen.ident(rng, 2, 5)
    while suffix.lower() in used or 'includ' in suffix.lower():
        suffix = '_' + gen.ident(rng, 2, 5)
    used.add(suffix.lower())
    return dict(op='copy', path=path, box=rng.choice([b for b in boxes if b[:len(path)] != path] or [()]),
                at=rng.random(), suffix=suffix)


def apply_raw(root, e):
    op = e['op']
    if op in ('shuffle', 'empty'):
        n = find(root, e['path'])
        kids = children(n)
        set_children(n, slot(n), [kids[j] for j in e['perm']] if op == 'shuffle' else [])
        return
    parent = find(root, e['path'][:-1])
    kids = children(parent)
    j = next(i for i, (u, c) in enumerate(kids) if name(c) == e['path'][-1])
    kid = kids[j]
    if op in ('delete', 'move'):
        i = slot(parent)
        if op == 'delete':
            set_children(parent, i, kids[:j] + kids[j + 1:])
            return
    if op == 'copy':
        kid = copy.deepcopy(kid)
        rename(kid[1], lambda s: s + e['suffix'])
    box = find(root, e['box'])
    if op == 'move':
        set_children(parent, slot(parent), kids[:j] + kids[j + 1:])
    i = slot(box)
    kids = children(box)
    kids.insert(int(e['at'] * (len(kids) + 1)), kid)
    set_children(box, i, kids)


class Elem:
    """the same edits on elem.json (only groups and tables hold children there)"""

    def __init__(self, d):
        self.d = d

    def node(self, path):
        t = dict(child=self.d['tree'])
        for part in path:
            t = next(x for x in t['child'] if x['name'] == part)
        return t

    def kids(self, path):
        return self.d['tree'] if not path else self.node(path)['child']

    def _sub(self, path):
        pre = '/'.join(path)
        return [k for k in self.d['data'] if k == pre or k.startswith(pre + '/')]

    def apply(self, e):
        op, path, data = e['op'], e['path'], self.d['data']
        if op == 'shuffle':
            kids = self.kids(path)
            kids[:] = [kids[j] for j in e['perm']]
            return
        if op == 'empty':
            for k in self._sub(path)[1:] if '/'.join(path) in data else self._sub(path):
                if k != '/'.join(path):
                    del data[k]
            self.kids(path)[:] = []
            return
        kids = self.kids(path[:-1])
        j = next(i for i, x in enumerate(kids) if x['name'] == path[-1])
        node = kids[j]
        old = self._sub(path)
        pre = '/'.join(path)
        if op == 'delete':
            del kids[j]
            for k in old:
                del data[k]
            return
        box = self.kids(e['box'])
        if op == 'move':
            del kids[j]
            new = '/'.join(e['box'] + (path[-1],))
            moved = {new + k[len(pre):]: data.pop(k) for k in old}
        else:
            s = e['suffix']
            node = copy.deepcopy(node)
            moved = {}

            def walk(x, src, dst):
                x['name'] += s
                dst = f'{dst}/{x["name"]}' if dst else x['name']
                raw = copy.deepcopy(data[src])
                i = next(i for i, y in enumerate(raw['raw']) if isinstance(y, str) and y[:1] == '"' and y != '""')
                raw['raw'][i] = raw['raw'][i][:-1] + s + '"'
                moved[dst] = raw
                for c in x.get('child') or []:
                    walk(c, f'{src}/{c["name"]}', dst)

            walk(node, pre, '/'.join(e['box']))
        data.update(moved)
        box.insert(int(e['at'] * (len(box) + 1)), node)


def shape(items):
    return [(x['name'], x['type'], shape(x.get('child') or [])) for x in items or []]


# -------------------------------------------------------------------------- props, parameters, commands of a form
def members(t, i):
    """items of T[3] (props), T[4] (parameters), T[5] (commands)"""
    if len(t) <= i or not isinstance(t[i], list) or len(t[i]) < 2:
        return []
    return t[i][2:2 + int(t[i][1][1])]


def set_members(t, i, items):
    n = int(t[i][1][1])
    t[i][1:2 + n] = [('a', str(len(items)))] + items


def ident(x):
    return x[1][0][1] if isinstance(x[1], list) else x[1][1]


def edit_members(t, rng, used, done):
    i = rng.choice([3, 3, 3, 4, 5, 5])
    items = members(t, i)
    if not items:
        return
    k = rng.choice(['copy', 'copy', 'delete', 'shuffle'])
    if k == 'delete':
        if len(items) > 1 and i != 3:
            items.pop(rng.randrange(len(items)))
        else:
            k = 'shuffle'
    if k == 'shuffle':
        rng.shuffle(items)
    elif k == 'copy':
        x = copy.deepcopy(rng.choice(items))
        s = '_' + gen.ident(rng, 2, 5)
        if s.lower() in used or 'includ' in s.lower():
            return
        used.add(s.lower())
        x[name_pos(x)] = ('s', name(x) + s)
        if isinstance(x[1], list):
            x[1][0] = ('a', str(max(int(ident(y)) for y in items) + 1))
        items.insert(rng.randrange(len(items) + 1), x)
    set_members(t, i, items)
    done.append(f'{k} member {i}')


def data_path(n, typ, t):
    """what a field or table shows, by name: 'attribute' or 'attribute.column'; None when it is something else"""
    if typ not in ('Field', 'Table'):
        return None
    for x in n[9:14]:
        if isinstance(x, list) and x and isinstance(x[0], tuple) and x[0][1].isdigit() and len(x) == int(x[0][1]) + 1 > 1 \
                and all(isinstance(y, list) and y and isinstance(y[0], tuple) for y in x[1:]):
            break
    else:
        return None
    ids = [y[0][1] for y in x[1:]]
    for m in members(t, 3):
        if ident(m) == ids[0]:
            if len(ids) == 1:
                return name(m)
            if len(ids) == 2:
                for c in m[14:14 + int(m[13][1])]:
                    if ident(c) == ids[1]:
                        return name(m) + '.' + c[3][1]
    return None


def data_paths(t, n=None, pre=''):
    """{path of an element: what it shows}"""
    r = {}
    for u, c in children(t[1] if n is None else n):
        q = pre + '/' + name(c) if pre else name(c)
        p = data_path(c, _type(u), t)
        if p:
            r[q] = p
        r.update(data_paths(t, c, q))
    return r
