"""C28: a value edited in a description file is built exactly there and nowhere else."""
import json
import os
import re

from vlib import brace, gen, mutate, product as P, rt
from vlib.core import case_rng

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=150, thorough=1500),
    rule='texts (names, synonyms, comments, captions, tooltips, expressions) that occur once in the description files and '
         'once in the product are edited in the sources of real products, the files are saved as other editors do (other '
         'indents, other order of keys, escaped letters); the product built must differ from the original in exactly '
         'those values; extracted again it must give the values; distinct = (file, value) edits',
    require={'edits': 400, 'builds': 60, 'distinct': 300, 'names': 40, 'form_values': 60, 'object_values': 150,
             'reordered_files': 60},
    assumptions=['values with quotes keep the form they have in the sources (quotes are doubled)'],
)


def cases(tier, seed):
    weights = dict(erf=3, epf803=8, epf802=6, cfe=8, apamold=4, apam=6, cf16=8, cf=2)
    k = 2 if tier == 'quick' else 40
    i = 0
    for r in range(k):
        for name, n in weights.items():
            for j in range(n):
                yield dict(kind=name, seed=seed, i=i)
                i += 1


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    elif isinstance(x, str):
        yield path, x


def bare(v):
    return v[1:-1] if len(v) >= 2 and v[0] == v[-1] == '"' else v


def strings(t, path=()):
    if isinstance(t, list):
        for i, x in enumerate(t):
            yield from strings(x, path + (i,))
    elif t[0] == 's':
        yield path, t[1].replace('"', '""')


def assign(x, path, v):
    for k in path[:-1]:
        x = x[k]
    x[path[-1]] = v


def new_value(rng, name):
    if name:
        return gen.ident(rng, 5, 20)
    s = gen.text(rng, 4, 60, nl=False) + f' {rng.getrandbits(30):x}'
    s = re.sub('[\x0b\x0c\x1c-\x1e\x85\u2028\u2029\\x00-\\x08]', ' ', s).strip()
    return s.replace('"', '""')


def save(rng, data, obs):
    """as an editor or a formatter may write it"""
    if rng.random() < 0.6 and isinstance(data, dict):
        keys = sorted(data) if rng.random() < 0.5 else sorted(data, key=lambda k: rng.random())
        data = {k: data[k] for k in keys}
        obs.count('reordered_files')
    s = json.dumps(data, ensure_ascii=rng.random() < 0.3, indent=rng.choice([None, 1, 2, 4, '\t']))
    if rng.random() < 0.3:
        s = s.replace('\n', '\r\n')
    return s.encode()


def run(case, obs):
    rng = case_rng('C28', case['seed'], case['i'])
    kind = case['kind']
    p = rt.defuse(P.seed(kind))
    mutate.some(p, rng, rng.choice([0, 2, 6]))
    raw, src, out, q, modes = rt.roundtrip(obs, p, rng)
    docs, seen = {}, {}
    for f, d in sorted(P.read_dir(src).items()):
        if not f.endswith('.json'):
            continue
        docs[f] = json.loads(d.decode('utf-8-sig'))
        for path, v in leaves(docs[f]):
            seen.setdefault(bare(v), []).append((f, path, v))
        for k in (docs[f].get('data') or {}) if isinstance(docs[f], dict) and isinstance(docs[f].get('data'), dict) else ():
            for part in k.split('/'):  # keys of form elements are names
                seen.setdefault(part, []).append((f, ('data', k), k))
    where = {}
    trees = {}
    for k, v in p.main.items():
        if isinstance(v, dict) or k in ('versions', 'configinfo'):
            continue
        try:
            trees[k] = p.tree(k)
        except (brace.BraceError, UnicodeDecodeError):
            continue
        for path, s in strings(trees[k]):
            where.setdefault(s, []).append((k, path))
    cand = []
    for v, places in sorted(seen.items()):
        if len(v) < 4 or len(where.get(v, ())) != 1 or v.startswith(('include', 'ver:')) or 'ver:' in v:
            continue
        files = {f for f, path, x in places}
        if len(files) != 1 or '.id.json' in places[0][0]:
            continue
        # the name, synonyms and comment of an object are repeated next to its header for readers; the header decides
        copies = [x for x in places if x[1] in (('name',), ('comment',)) or len(x[1]) == 2 and x[1][0] == 'name2']
        real = [x for x in places if x not in copies]
        if len(real) == 1 and real[0][2] != v:
            cand.append(real[0] + (v, copies))
    if not cand:
        return
    want = p.copy()
    named = [c for c in cand if c[4]]
    todo = rng.sample(cand, min(len(cand), rng.randint(1, 12)))
    todo += [c for c in rng.sample(named, min(len(named), 4)) if c not in todo]
    done = []
    for f, path, x, v, copies in todo:
        name = any(c[1] == ('name',) for c in copies)
        n = new_value(rng, name or re.fullmatch(r'\w+', v))
        assign(docs[f], path, f'"{n}"')
        for c in copies:
            if name or rng.random() < 0.5:
                assign(docs[f], c[1], n)
        k, at = where[v][0]
        assign(trees[k], at, ('s', n.replace('""', '"')))
        want.set_tree(k, trees[k])
        obs.count('edits')
        obs.count('names' if name else 'form_values' if 'elem' in f or '/Form/' in f else 'object_values')
        obs.sig(f, path, n)
        done.append((f, path, n))
    for f in sorted({d[0] for d in done}):
        P.write(os.path.join(src, f), save(rng, docs[f], obs))
    rt.pick_schedule(rng)
    out2 = P.build(obs, src, 'build-raises:edited')
    q2 = P.parse_built(out2)
    n = len(obs.violations)
    rt.judge(obs, want, q2, out2, ':edited')
    if len(obs.violations) > n:
        return
    src2 = os.path.join(obs.tmp, 'again', 'src')
    P.extract(obs, out2, src2)
    texts = {bare(v) for f, d in P.read_dir(src2).items() if f.endswith('.json')
             for path, v in leaves(json.loads(d.decode('utf-8-sig')))}
    for f, path, n in done:
        obs.check(bare(n) in texts, 'value-not-extracted', f'{f} {path}: {n!r} is in no description after an extraction')
    obs.sample(dict(product=kind, edits=[(f, str(path), n) for f, path, n in done][:6]))
