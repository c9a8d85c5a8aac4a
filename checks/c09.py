"""C09: include areas of modules: extraction moves each into its file, building puts it back."""
import json
import os

from vlib import areas as A, env, mutate, product as P, rt
from vlib.core import Violation, case_rng
from checks import c08

META = dict(
    level='exploration', timeout=180,
    budget=dict(quick=150, thorough=1500),
    rule='the modules of a product get generated texts with nested plain regions and include_ / includr_ areas (paths of '
         'one, two or more parts, parts that go up, renamed by the index, inside and outside of the sources, with '
         'descent); after extraction the whole workspace must hold exactly the files a model predicts, the build must '
         'give the texts back, and after area files are edited (with and without a final line end, BOM, CRLF) every '
         'module that includes them must hold the new text; distinct = area trees',
    require={'areas': 1000, 'nested_areas': 200, 'readers': 100, 'distinct': 200, 'edited_areas': 300, 'shared_areas': 30,
             'renamed_areas': 50, 'single_name_areas': 100, 'old_products': 3, 'long_modules': 15, 'descent': 5},
    assumptions=['an area name is used by one include_ area only (several writers of one file are documented as '
                 'arbitrary); other uses are includr_'],
)


def cases(tier, seed):
    weights = dict(epf803=16, cfe=8, apam=6, epf802=6, cf16=6)
    k = 4 if tier == 'quick' else 40
    i = 0
    for r in range(k):
        for name, n in weights.items():
            for j in range(n):
                yield dict(kind=name, seed=seed, i=i, dyn=False)
                i += 1


def comment_old(lines):
    """8.0-8.2: directives are kept as comments in the product (not in the first line)"""
    return [('// v8unpack ' + x) if i and x.startswith(('#Область', '#КонецОбласти', '&НаСервере', '&НаКлиенте'))
            else x for i, x in enumerate(lines)]


def run(case, obs, prop='C09'):
    rng = case_rng(prop, case['seed'], case['i'])
    kind, dyn = case['kind'], case['dyn']
    p = rt.defuse(P.seed(kind))
    old = mutate.is_old(p)
    places = [w for w in [(k, n) for k, n in mutate.modules(p)] + [(k, None) for k in c08.form_modules(p)]
              if w[1] is None or isinstance(p.main[w[0]], dict) and 'text' in p.main[w[0]]]
    if old:  # only modules whose directives are commented: object and form modules of the processor
        places = [w for w in places if w[1] == 'text']
    rng.shuffle(places)
    places = places[:rng.randint(1, 8)]
    descent = rng.choice([None, None, None, 3000075]) if not case.get('nodescent') else None
    levels = 1 if descent is None else 2
    src = os.path.join(obs.tmp, 'ws', 'a', 'b', 'conf', 'src') if descent is not None \
        else os.path.join(obs.tmp, 'ws', 'a', 'b', 'src')
    base = os.path.join(obs.tmp, 'ws')
    options = {'descent': descent} if descent is not None else None
    if descent is not None:
        obs.count('descent')
    if old:
        obs.count('old_products')
    # files shared with other products: read only here
    used, readers = set(), {}
    for _ in range(rng.randint(0, 3)):
        key = A.make_key(rng, used, single=False)
        readers[key] = [x for x in A.make(rng, used, 3, dyn, old, None, (), n=rng.randint(0, 5))
                        if isinstance(x, (str, A.Dyn))]
        readers[key] = [A.Dyn(x.indent, None, x.tail) if isinstance(x, A.Dyn) else x for x in readers[key]]
    texts, all_areas = {}, []
    for n, w in enumerate(places):
        mine = []
        items = [f'// модуль {n}'] + A.make(rng, used, 0, dyn, old, mine, tuple(readers))
        if not mine and rng.random() < 0.7:
            a = A.Area(A.make_key(rng, used), 'include', None, [])
            a.items = A.make(rng, used, 1, dyn, old, mine, tuple(readers))
            mine.append(a)
            items.append(a)
        texts[w] = items
        if w == places[0] and rng.random() < 0.4:
            where = rng.choice([items] + [x.items for x in mine])
            # (a text that is kept as a string is read in quadratic time)
            where[min(1, len(where)):1] = A.stretch(rng, rng.choice([300, 1500, 3000] if w[1] else [300]))
            obs.count('long_modules')
        all_areas += [(w, a) for a in mine]
    if not dyn:  # the same code in another module, read only there
        for w, a in list(all_areas):
            if rng.random() < 0.12 and '_' in a.key:
                w2 = rng.choice(places)
                if w2 != w:
                    texts[w2].append(A.Area(a.key, 'includr', None, a.items))
                    obs.count('shared_areas')
    rename = {}
    if rng.random() < 0.35:
        for w, a in all_areas:
            if rng.random() < 0.3 and '_' in a.key:
                rename[a.key] = A.make_key(rng, used, single=False)
        for k in sorted(rename.values()):  # a place that is another name for nothing
            if rng.random() < 0.3:
                rename[k] = A.make_key(rng, used, single=False)
        rename['Нет_такой'] = 'Другая'
    index = None
    if rename or rng.random() < 0.1:
        index = P.write(os.path.join(base, 'index.json'), json.dumps(
            {'Области include': rename, 'Нет.json': None}, ensure_ascii=False).encode())
    obs.count('renamed_areas', len([k for k in rename if k != 'Нет_такой']))

    def product_text(w, rd):
        lines = A.product(texts[w], None, rd)
        return lines

    # the product holds something else in the areas that are only read here
    stale = {}
    last_eol = {}
    for w in places:
        lines = A.product(texts[w], None, {k: ['// старое'] for k in readers})
        last_eol[w] = rng.random() < 0.8
        stale[w] = lines
        if old:
            lines = comment_old(lines)
        c08.put(p, w, A.text(lines, last_eol[w]).replace('\n', rng.choice(['\n', '\r\n'])), 'sig')
    raw = p.dump(None, 1)
    want = {}
    rel_src = os.path.relpath(src, base)
    for key, lines in readers.items():
        d, f = A.area_path(key, '', levels, rename)
        rel = os.path.normpath(os.path.join(rel_src, d, f))
        text = A.text([x.source('d') if isinstance(x, A.Dyn) else x for x in lines])
        P.write(os.path.join(base, rel), text.encode())
        want[rel] = text
    # places of areas are taken by other texts, some of the same length
    for w in places:
        files = {}
        A.sources(texts[w], files)
        for key, ls in files.items():
            if '_' in key and rng.random() < 0.3:
                d, f = A.area_path(key, '', levels, rename)
                new = A.text(ls).encode()
                P.write(os.path.join(base, rel_src, d, f), bytes(b ^ 1 if b > 32 and b < 127 else b for b in new)
                        if rng.random() < 0.7 else b'// old\n' * rng.randint(0, 30))
                obs.count('taken_places')
    rt.pick_schedule(rng)
    P.extract(obs, raw, src, options=options, index=index)
    # ------------------------------------------------------------------------- the workspace is what the model says
    got = {rel: d for rel, d in P.read_dir(base).items() if rel.endswith('.bsl')}
    by_first = {}
    for rel, d in got.items():
        first = d.decode('utf-8', 'replace').split('\n')[0]
        if first.startswith('// модуль ') and rel.startswith(rel_src + os.sep):
            by_first.setdefault(first, []).append(rel)
    where = {}
    for n, w in enumerate(places):
        c = by_first.get(f'// модуль {n}', [])
        if len(c) != 1:
            raise Violation('module-place', f'module {w} is in {len(c)} source files')
        where[w] = c[0]
        files = {}
        lines = A.sources(texts[w], files)
        want[c[0]] = A.text(lines, last_eol[w])
        mdir = os.path.relpath(os.path.dirname(c[0]), rel_src)
        for key, ls in files.items():
            d, f = A.area_path(key, mdir, levels, rename)
            if d == mdir and descent is not None:
                f = f'{f[:-4]}.{descent}.bsl'
            rel = os.path.normpath(os.path.join(rel_src, d, f))
            if rel in want and want[rel] != A.text(ls):
                raise RuntimeError(f'ambiguous area {key}')
            want[rel] = A.text(ls)
            obs.count('areas')
            if '_' not in key:
                obs.count('single_name_areas')
        obs.sig(kind, [type(x).__name__ if not isinstance(x, str) else '' for x in texts[w]], tuple(files))
    obs.count('nested_areas', sum(1 for w, a in all_areas for x in a.items if isinstance(x, A.Area)))
    obs.count('readers', sum(1 for w in places for ln in stale[w] if '#Область includr_' in ln and '//' not in ln))
    for rel in sorted(want):
        if rel not in got:
            obs.violation('area-file-missing', f'{rel} was not written')
            continue
        s = c08.norm(got[rel].decode('utf-8'))
        obs.check(s == want[rel], 'source-file-differs', lambda: f'{rel}: {c08.first_diff(want[rel], s)}')
    for rel in got:
        if rel not in want and not rel.startswith(rel_src + os.sep):
            obs.violation('area-file-extra', f'{rel} appeared outside of the sources')
    if obs.violations:
        return
    # --------------------------------------------------------------------------------------------- built back
    rd = {k: v for k, v in readers.items()}

    def judge(out, key):
        q = P.parse_built(out)
        for w in places:
            lines = A.product(texts[w], None, rd)
            if old:
                lines = comment_old(lines)
            s = A.text(lines, last_eol[w])
            got = c08.get(q, w)
            obs.check(got == s, key, lambda: f'{w} {where[w]}: {c08.first_diff(s, got or "")}')
        a, b = p.copy(), q
        for w in places:
            for x in (a, b):
                if w[0] in x.main:
                    c08.put(x, w, '', 'utf')
        for f, what in P.differences(a, b):
            obs.violation('other-file:' + rt.kind_of(a, f), f'{f}: {what}')

    rt.pick_schedule(rng)
    judge(P.build(obs, src, options=options, index=index), 'built-module-differs')
    # ------------------------------------------------------------------------------------------ edit the areas
    edits = 0
    for w, a in all_areas:
        if rng.random() < 0.5:
            continue
        d, f = A.area_path(a.key, os.path.relpath(os.path.dirname(where[w]), rel_src), levels, rename)
        if '_' not in a.key and descent is not None:
            f = f'{f[:-4]}.{descent}.bsl'
        rel = os.path.normpath(os.path.join(rel_src, d, f))
        keep = [x for x in a.items if not isinstance(x, str)]
        pos = rng.randint(0, len(keep))
        new = A.make(rng, used, 9, dyn, old, None, (), n=rng.randint(0, 4))
        if old:
            new = [x for x in new if isinstance(x, str)]
        a.items[:] = keep[:pos] + new + keep[pos:]
        edits += 1
        obs.count('edited_areas')
    for w in places:
        files = {}
        A.sources(texts[w], files)
        mdir = os.path.relpath(os.path.dirname(where[w]), rel_src)
        for key, ls in files.items():
            d, f = A.area_path(key, mdir, levels, rename)
            if d == mdir and descent is not None:
                f = f'{f[:-4]}.{descent}.bsl'
            t = A.text(ls, rng.random() < 0.7)
            b = t.replace('\n', rng.choice(['\n', '\n', '\r\n'])).encode()
            if rng.random() < 0.3:
                b = b'\xef\xbb\xbf' + b
            P.write(os.path.join(src, d, f), b)
    for key in rd:
        if rng.random() < 0.5:
            rd[key] = ['// новое', 'Ж = 1;'] if rng.random() < 0.7 else []
            d, f = A.area_path(key, '', levels, rename)
            P.write(os.path.join(src, d, f), A.text(rd[key], rng.random() < 0.5).encode())
    rt.pick_schedule(rng)
    judge(P.build(obs, src, 'build-edited-raises', options=options, index=index), 'edited-area-not-built')
    obs.sample(dict(product=kind, areas=len(all_areas), readers=len(readers), renamed=len(rename), edited=edits,
                    descent=descent))

