"""The metadata objects of a product, found from its files alone (independent of the code under test)."""
import re

from . import brace

UUID = re.compile(r'[0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12}$')


def is_uuid(s):
    return bool(UUID.match(s))


class Obj:
    def __init__(self, uuid, type_uuid, parent, name):
        self.uuid, self.type, self.parent, self.name = uuid, type_uuid, parent, name

    def __repr__(self):
        return f'Obj({self.name}, {self.uuid})'


def root_uuid(p):
    if 'root' in p.main:
        return p.tree('root')[0][1][1]
    if 'configinfo' in p.main:  # extension
        return p.tree('configinfo')[1][1][1]
    return None


def find_header(tree, uuid, depth=0):
    """-> the list [?, [?, ?, uuid], "name", {locales}, "comment", ...] of an object"""
    if not isinstance(tree, list):
        return None
    if len(tree) >= 5 and isinstance(tree[1], list) and len(tree[1]) >= 3 \
            and (tree[1][2] == ('a', uuid) or uuid is None and isinstance(tree[1][2], tuple) and is_uuid(tree[1][2][1])) \
            and isinstance(tree[2], tuple) and tree[2][0] == 's' and isinstance(tree[3], list):
        return tree
    for x in tree:
        r = find_header(x, uuid, depth + 1)
        if r is not None:
            return r
    return None


def include_lists(tree, files):
    """lists [type, count, uuid...] whose uuids are names of files of the product"""
    out = []

    def walk(t):
        if not isinstance(t, list):
            return
        if len(t) >= 3 and t[0][0] == 'a' if t and isinstance(t[0], tuple) else False:
            if is_uuid(t[0][1]) and isinstance(t[1], tuple) and t[1][1].isdigit() and int(t[1][1]) == len(t) - 2 \
                    and all(isinstance(x, tuple) and x[0] == 'a' and x[1] in files for x in t[2:]):
                out.append(t)
                return
        for x in t:
            walk(x)

    walk(tree)
    return out


def objects(p):
    """-> {uuid: Obj} reachable from the root by the include lists"""
    files = set(p.main)
    root = root_uuid(p)
    out = {}
    todo = [(root, None, None)]
    while todo:
        u, typ, parent = todo.pop()
        if u in out or u not in files:
            continue
        try:
            trees = p.tree(u)
        except (brace.BraceError, UnicodeDecodeError):
            continue
        h = find_header(trees, u) or find_header(trees, None)
        o = Obj(u, typ, parent, h[2][1] if h else None)
        o.header = h
        out[u] = o
        o.children = []
        for lst in include_lists(trees, files):
            for x in lst[2:]:
                o.children.append(x[1])
                todo.append((x[1], lst[0][1], u))
    return out


def object_files(p):
    """{file: why} of files an object cannot do without"""
    out = {}
    root = root_uuid(p)
    for u, o in objects(p).items():
        out[u] = f'object {o.name}' if u != root else 'root object'
    return out
