"""Ordinary forms, read from the platform's format (docs: structure of an ordinary form): a panel holds a description
with its pages, and elements [type, id, data.., geometry, [.., name], children]."""
import copy

from . import brace, gen

PANEL = '09ccdc77-ea1a-4a6d-ab1c-3435eada2433'


def is_child(e):
    return not isinstance(e[1], list)


def desc(e):
    return e[2][1] if is_child(e) else e[1][1]


def elems(e):
    """list node [count, element...] of a panel"""
    return e[-1] if is_child(e) else e[2]


def kids(e):
    return elems(e)[1:]


def set_kids(e, items):
    elems(e)[:] = [('a', str(len(items)))] + items


def is_panel(e):
    return e[0][1] == PANEL


def name(e):
    return e[-2][1][1]


def set_name(e, s):
    e[-2][1] = ('s', s)


def eid(e):
    return e[1][1]


def page(e):
    return int(e[-3][-5][1])


def set_page(e, n):
    e[-3][-5] = ('a', str(n))


def find_pages(d):
    """position of the pages list ['1', n, page...] in a panel description: the only list there whose members are pages
    (lists with the page's name as a string at 6)"""
    for i, x in enumerate(d):
        if isinstance(x, list) and len(x) >= 3 and x[0] == ('a', '1') and isinstance(x[1], tuple) \
                and x[1][1].isdigit() and int(x[1][1]) == len(x) - 2 and int(x[1][1]) > 0 \
                and all(isinstance(y, list) and len(y) > 6 and isinstance(y[6], tuple) and y[6][0] == 's'
                        for y in x[2:]):
            return i
    return None


def pages(e):
    d = desc(e)
    i = find_pages(d)
    return [y[6][1] for y in d[i][2:]] if i is not None else []


def root(t):
    return t[1][2]


def walk(panel, pre=''):
    """(key, element, parent panel) in order"""
    pg = pages(panel)
    for e in kids(panel):
        p = pg[page(e)] if pg else ''
        key = '/'.join(x for x in (pre, p, name(e)) if x)
        yield key, e, panel
        if is_panel(e):
            yield from walk(e, key)


def page_keys(panel, pre=''):
    for p in pages(panel):
        yield '/'.join(x for x in (pre, p) if x)
    for key, e, par in walk(panel, pre):
        if is_panel(e):
            for p in pages(e):
                yield f'{key}/{p}'


def tree(panel):
    pg = pages(panel)
    return [(name(e), e[0][1], pg[page(e)] if pg else None, tree(e) if is_panel(e) else []) for e in kids(panel)]


def canon(t):
    """the form with element ids replaced by their keys and the lists whose order means nothing sorted"""
    t = copy.deepcopy(t)
    r = root(t)
    ids = {eid(e): key for key, e, _ in walk(r)}

    def ref(x):
        return ('s', 'key:' + ids[x[1]]) if x[1] in ids else x

    def geometry(g):
        o = 6
        for b in range(6):
            for j in (1, 2):
                g[o][j][1] = ref(g[o][j][1])
            o += 1
        for b in range(4):
            n = int(g[o][1])
            for j in range(n):
                o += 1
                g[o][1] = ref(g[o][1])
            o += 1

    def panel(p, pre):
        pg = pages(p)
        d = desc(p)
        o = 2
        for b in range(4):
            n = int(d[o][1])
            for x in d[o + 1:o + 1 + n]:
                x[1] = ref(x[1])
            d[o + 1:o + 1 + n] = sorted(d[o + 1:o + 1 + n], key=repr)
            o += 1 + n
        keyed = []
        for e in kids(p):
            key = '/'.join(x for x in (pre, pg[page(e)] if pg else '', name(e)) if x)
            keyed.append((key, e))
        for key, e in keyed:
            if is_panel(e):
                panel(e, key)
            geometry(e[-3])
            e[1] = ('s', 'key:' + key)
        set_kids(p, [e for k, e in sorted(keyed, key=lambda x: x[0])])

    panel(r, '')
    src = t[2][3]
    for x in src[1:]:
        x[0] = ref(x[0])
    src[1:] = sorted(src[1:], key=repr)
    return t


# ------------------------------------------------------------------------------------------------------- anchors
def links(g):
    """the twelve links of a geometry: (side of this element, link)"""
    for b in range(6):
        for j in (1, 2):
            yield b, g[6 + b], g[6 + b][j]


def holders(g):
    """the four lists of who is anchored here: (position of the count, entries)"""
    o = 12
    for b in range(4):
        n = int(g[o][1])
        yield o, g[o + 1:o + 1 + n]
        o += 1 + n


def index_of(p):
    """the panel's list of elements anchored to it, derived from the elements"""
    out = [[], [], [], []]
    for e in kids(p):
        for b, node, ln in links(e[-3]):
            if ln[1][1] == '0':
                to = int(ln[2][1])
                out[1 if to > 3 else to].append([node[0], e[1], ('a', str(1 if b > 3 else b))])
    return out


def index_in(d):
    out = []
    o = 2
    for b in range(4):
        n = int(d[o][1])
        out.append(d[o + 1:o + 1 + n])
        o += 1 + n
    return out, o


def panels(r):
    yield r
    for e in kids(r):
        if is_panel(e):
            yield from panels(e)


def consistent(t):
    """every link stays inside its panel and the panels' lists say the same"""
    for p in panels(root(t)):
        here = {eid(e) for e in kids(p)} | {'0', '-1'}
        for e in kids(p):
            if any(ln[1][1] not in here for b, n, ln in links(e[-3])):
                return False
            if any(x[1][1] not in here for o, xs in holders(e[-3]) for x in xs):
                return False
        if [sorted(x, key=repr) for x in index_of(p)] != [sorted(x, key=repr) for x in index_in(desc(p))[0]]:
            return False
    return True


def repair(t):
    """make the anchors consistent after edits"""
    for p in panels(root(t)):
        here = {eid(e) for e in kids(p)}
        for e in kids(p):
            for b, node, ln in links(e[-3]):
                if ln[1][1] not in here | {'0', '-1'}:
                    ln[1:] = [('a', '-1'), ('a', '6'), ('a', '0')]
            for o, xs in reversed(list(holders(e[-3]))):
                keep = [x for x in xs if x[1][1] in here]
                e[-3][o:o + 1 + len(xs)] = [('a', str(len(keep)))] + keep
        d = desc(p)
        old, end = index_in(d)
        d[2:end] = [y for x in index_of(p) for y in [('a', str(len(x)))] + x]
    src = t[2][3]
    ids = {eid(e) for _, e, _ in walk(root(t))}
    src[:] = [src[0]] + [x for x in src[1:] if x[0][1] in ids]
    src[0] = ('a', str(len(src) - 1))


def no_anchors(t):
    """the form without its anchors"""
    t = copy.deepcopy(t)
    for p in panels(root(t)):
        for e in kids(p):
            for b, node, ln in links(e[-3]):
                ln[1] = ('a', '?')
            for o, xs in holders(e[-3]):
                for x in xs:
                    x[1] = ('a', '?')
        d = desc(p)
        d[2:index_in(d)[1]] = []
    return t


# --------------------------------------------------------------------------------------------------------- edits
def next_id(t):
    return max([int(eid(e)) for _, e, _ in walk(root(t))] + [int(x[0][1]) for x in t[2][3][1:]] + [1]) + 1


def clone(t, e, suffix, at):
    """copy of an element with everything below it: new names and ids, links within the copy follow it"""
    c = copy.deepcopy(e)
    m = {}

    def renumber(x):
        m[eid(x)] = str(at + len(m))
        x[1] = ('a', m[eid(x)])
        set_name(x, name(x) + suffix)
        if is_panel(x):
            for y in kids(x):
                renumber(y)

    def relink(x):
        for b, node, ln in links(x[-3]):
            if ln[1][1] in m:
                ln[1] = ('a', m[ln[1][1]])
        for o, xs in holders(x[-3]):
            for y in xs:
                if y[1][1] in m:
                    y[1] = ('a', m[y[1][1]])
        if is_panel(x):
            for y in kids(x):
                relink(y)
            for xs in index_in(desc(x))[0]:
                for y in xs:
                    if y[1][1] in m:
                        y[1] = ('a', m[y[1][1]])

    renumber(c)
    relink(c)
    for x in t[2][3][1:]:
        if x[0][1] in m:
            t[2][3].append([('a', m[x[0][1]])] + copy.deepcopy(x[1:]))
    t[2][3][0] = ('a', str(len(t[2][3]) - 1))
    return c


def edit(t, rng, used):
    r = root(t)
    all_ = list(walk(r))
    if not all_:
        return None
    boxes = list(panels(r))
    k = rng.choice(['copy', 'copy', 'copy', 'delete', 'shuffle', 'page', 'move', 'rename', 'page-rename', 'text',
                    'page-add', 'page-add', 'page-info', 'anchor', 'anchor'])
    key, e, par = rng.choice(all_)
    if k == 'delete' and len(all_) < 3:
        k = 'copy'
    if k == 'shuffle':
        p = rng.choice(boxes)
        x = kids(p)
        rng.shuffle(x)
        set_kids(p, x)
    elif k == 'delete':
        set_kids(par, [x for x in kids(par) if x is not e])
    elif k == 'page':
        set_page(e, rng.randrange(max(1, len(pages(par)))))
    elif k == 'move':
        cand = [b for b in boxes if b is not par and not (is_panel(e) and any(b is x for x in panels(e)))]
        if not cand:
            return None
        box = rng.choice(cand)
        if any(name(x) == name(e) for x in kids(box)):
            return None
        set_kids(par, [x for x in kids(par) if x is not e])
        set_page(e, rng.randrange(max(1, len(pages(box)))))
        x = kids(box)
        x.insert(rng.randrange(len(x) + 1), e)
        set_kids(box, x)
    elif k in ('copy', 'rename'):
        s = fresh(rng, used)
        if k == 'rename':
            set_name(e, rng.choice(['Н', 'x_include_', 'А_includr_', '_', 'Страница1']) + s)
        else:
            box = rng.choice([b for b in boxes if not (is_panel(e) and any(b is x for x in panels(e)))])
            c = clone(t, e, s, next_id(t))
            set_page(c, rng.randrange(max(1, len(pages(box)))))
            x = kids(box)
            x.insert(rng.randrange(len(x) + 1), c)
            set_kids(box, x)
    elif k == 'page-rename':
        p = rng.choice(boxes)
        i = find_pages(desc(p))
        if i is None:
            return None
        y = rng.choice(desc(p)[i][2:])
        others = [x[0] for x in all_]
        y[6] = ('s', rng.choice(['Стр', name(e), 'Page_includr_']) + fresh(rng, used))
    elif k == 'page-add':  # up to a number of pages of two digits
        p = rng.choice(boxes)
        d = desc(p)
        i = find_pages(d)
        if i is None or len(pages(p)) > 14:
            return None
        for _ in range(rng.choice([1, 2, 10])):
            y = copy.deepcopy(d[i][-1])
            y[6] = ('s', 'Стр' + fresh(rng, used))
            d[i].append(y)
            d[i][1] = ('a', str(int(d[i][1][1]) + 1))
            n = int(d[i + 4][1])
            d[i + 5 + n:i + 5 + n] = copy.deepcopy(d[i + 1 + n:i + 5 + n])
            d[i + 4] = ('a', str(n + 4))
        for x in kids(p):
            if rng.random() < 0.5:
                set_page(x, rng.randrange(len(pages(p))))
    elif k == 'page-info':  # more entries about the first page than usual
        d = desc(rng.choice(boxes))
        i = find_pages(d)
        n = int(d[i + 4][1]) if i is not None else 0
        if not n:
            return None
        more = rng.choice([1, 2, 4])
        d[i + 5:i + 5] = copy.deepcopy(d[i + 5:i + 6]) * more
        d[i + 4] = ('a', str(n + more))
    elif k == 'anchor':  # any of the six lines of an element held by its panel or by a neighbour
        b, node, ln = rng.choice(list(links(e[-3])))
        to = rng.choice(['0', eid(rng.choice(kids(par)))])
        if to == eid(e):
            to = '0'
        ln[1], ln[2] = ('a', to), ('a', str(rng.randrange(6)))
    elif k == 'text':
        texts = []

        def strings(n):
            for i, x in enumerate(n):
                if isinstance(x, list):
                    strings(x)
                elif x[0] == 's' and any('а' <= ch <= 'я' for ch in x[1]) and ' ' in x[1]:
                    texts.append((n, i))

        strings(e)
        if not texts:
            return None
        n, i = rng.choice(texts)
        n[i] = ('s', gen.text(rng, 1, 30))
    return k


def fresh(rng, used):
    while True:
        s = gen.ident(rng, 2, 6)
        if s.lower() not in used and 'includ' not in s.lower():
            used.add(s.lower())
            return s


def to_26(t):
    """the same form in the layout of platform 8.1 (properties without one field)"""
    t[0] = ('a', '26')
    for x in t[2][2][1:]:
        del x[1]
    return t
