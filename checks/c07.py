"""C07: sources are a fixed point: extracting what was built from them gives the same sources; an extraction leaves
nothing of an earlier one behind."""
import json
import os

from vlib import env, mutate, product as P, rt
from vlib.core import case_rng

META = dict(
    level='exploration', timeout=180,
    budget=dict(quick=150, thorough=1500),
    rule='edited real products are extracted (S1), built, extracted again (S2): S2 must equal S1 byte by byte except '
         'for the platform bookkeeping (version ids and hashes) of a configuration; the second extraction goes into a '
         'folder that still holds the sources of another product version or unrelated files, which must all be '
         'gone; an extraction is repeated under another schedule and must be byte-identical; two builds of the same '
         'sources must agree; distinct = (product, edits)',
    require={'files_compared': 2000, 'distinct': 25, 'stale_files_planted': 100},
    assumptions=['the version ids (`versions`) are random by design and the file hashes follow them'],
)


def cases(tier, seed):
    weights = dict(erf=4, epf803=9, epf802=7, cfe=7, apamold=4, apam=4, cf16=4, cf=2)
    k = 2 if tier == 'quick' else 40
    i = 0
    for r in range(k):
        for name, n in weights.items():
            for j in range(n):
                yield dict(kind=name, seed=seed, i=i, first=r == 0 and j == 0)
                i += 1


def mask(name, data):
    """bookkeeping inside the root description"""
    if name in ('Configuration.json', 'ConfigurationExtension.json'):
        d = json.loads(data)
        for k in ('versions', 'configinfo'):
            if k in d:
                d[k] = len(d[k])
        return d
    return data


def compare(obs, a, b, key, what):
    obs.count('files_compared', len(a))
    for f in sorted(set(a) | set(b)):
        if f not in a:
            obs.violation(f'{key}:extra', f'{f} {what}: appeared')
        elif f not in b:
            obs.violation(f'{key}:lost', f'{f} {what}: disappeared')
        elif a[f] != b[f] and mask(f, a[f]) != mask(f, b[f]):
            i = next((i for i, (x, y) in enumerate(zip(a[f], b[f])) if x != y), min(len(a[f]), len(b[f])))
            obs.violation(f'{key}:content', f'{f} {what}: differs at {i}: {a[f][max(0, i - 60):i + 60]!r} -> '
                                            f'{b[f][max(0, i - 60):i + 60]!r}')


def run(case, obs):
    rng = case_rng('C07', case['seed'], case['i'])
    kind = case['kind']
    p = rt.defuse(P.seed(kind))
    done = [] if case['first'] else mutate.some(p, rng, rng.choice([1, 3, 6, 12]))
    if not case['first'] and case['i'] % 2 and (d := mutate.deepen(p, rng)):
        done.append(d)
        obs.count('deep_trees')
    if rng.random() < 0.25 and (d := mutate.form_parts(p, rng)):
        done.append(d)
        obs.count('form_parts')
    raw, src, out, q, modes = rt.roundtrip(obs, p, rng)
    s1 = P.read_dir(src)
    src2 = os.path.join(obs.tmp, 'ws2', 'src')
    # the folder holds something else
    how = rng.choice(['same', 'other', 'junk', 'empty', 'none'])
    if how == 'same':
        o = mutate.some(p2 := p.copy(), rng, 3)
        rt.pick_schedule(rng)
        P.extract(obs, p2.dump(None, 1), src2)
    elif how == 'other':
        rt.pick_schedule(rng)
        P.extract(obs, P.raw_seed(rng.choice(['erf', 'epf802', 'apam'])), src2)
    elif how == 'junk':
        for f in rng.sample(sorted(s1), min(5, len(s1))):
            P.write(os.path.join(src2, f), bytes(b ^ 1 for b in s1[f]) if rng.random() < 0.4 else
                    b'old ' * rng.randint(1, 2000))  # (some of the same length)
        P.write(os.path.join(src2, '.id.json'), b'{}')
        P.write(os.path.join(src2, '.старые', 'config'), b'old')
        P.write(os.path.join(src2, 'Form', 'Старая', 'Form.obj.bsl'), b'old')
        P.write(os.path.join(src2, 'x.txt'), b'old')
    elif how == 'empty':
        os.makedirs(src2)
    obs.count('stale_files_planted', len(P.read_dir(src2)) if os.path.isdir(src2) else 0)
    rt.pick_schedule(rng)
    P.extract(obs, out, src2)
    s2 = P.read_dir(src2)
    compare(obs, s1, s2, 'sources', f'after build and extract over {how}')
    dirs1 = {os.path.relpath(d, src) for d, _, _ in os.walk(src)}
    dirs2 = {os.path.relpath(d, src2) for d, _, _ in os.walk(src2)}
    obs.check(dirs1 == dirs2, 'sources:folders', f'folders differ: {sorted(dirs1 ^ dirs2)[:6]}')
    # once more into its own folder
    rt.pick_schedule(rng)
    P.extract(obs, raw, src)
    compare(obs, s1, P.read_dir(src), 'again', 'extracted again')
    rt.pick_schedule(rng)
    q2 = P.parse_built(P.build(obs, src2))
    fa, fb = q.flat(), q2.flat()
    obs.check(list(sorted(fa)) == list(sorted(fb)), 'build-again:files', 'a second build holds other files')
    for f in fa:
        if f in fb and fa[f] != fb[f] and not f.endswith(('/versions', '/configinfo')):
            obs.violation('build-again:content', f'{f} differs between two builds of the same sources')
    obs.sig(kind, tuple(done))
    obs.sample(dict(product=kind, edits=done, folder=how, source_files=len(s1)))
