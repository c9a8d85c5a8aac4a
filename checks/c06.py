"""C06: extract followed by build gives back an equivalent product."""
from vlib import env, mutate, product as P, rt
from vlib.core import case_rng

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=150, thorough=1500),
    rule='real products of every generation and kind (processor, report, configuration, extension; 8.0 to 8.3 '
         'layouts) are edited at random (objects renamed, cloned with everything below them, deleted, reordered; '
         'synonyms, comments, captions, modules, payloads replaced; parts of forms removed and added; objects multiplied to hundreds), written by '
         'an independent writer in a random legal layout, extracted and built by the real code under random worker '
         'schedules; every inner file must come back with the same meaning and the bookkeeping files must match '
         'the result; distinct = (product, edits)',
    require={'files_compared': 3000, 'distinct': 25, 'pool_batches': 100, 'form_parts': 10, 'crowds': 3,
             'deep_trees': 8},
    assumptions=['regions and form groups whose names start with include markers are references to shared files by '
                 'design and are renamed here (C09, C12 judge them)'],
)


def cases(tier, seed):
    weights = dict(erf=6, epf803=14, epf802=8, cfe=8, apamold=6, apam=6, cf16=8, cf=6)
    k = 3 if tier == 'quick' else 60
    i = 0
    for r in range(k):
        for name, n in weights.items():
            for j in range(n):
                yield dict(kind=name, seed=seed, i=i, first=r == 0 and j == 0)
                i += 1
        for name in ('apam', 'cf16', 'cf16'):
            yield dict(kind=name, seed=seed, i=i, first=False, large=True)
            i += 1
        for name in ('epf803', 'apam', 'cfe', 'cf16'):
            yield dict(kind=name, seed=seed, i=i, first=False, crowd=600)
            i += 1


def run(case, obs):
    rng = case_rng('C06', case['seed'], case['i'])
    p = rt.defuse(P.seed(case['kind']))
    done = [] if case['first'] else mutate.some(p, rng, rng.choice([1, 2, 4, 8, 16]))
    if not case['first'] and case['i'] % 2 and (d := mutate.deepen(p, rng)):
        done.append(d)
        obs.count('deep_trees')
    if case.get('large') and (d := mutate.large(p, rng)):
        done.append(d)
        obs.count('large_pages')
    if case.get('crowd'):
        for _ in range(8):
            d = mutate.crowd(p, rng, case['crowd'])
            if d:
                done.append(d)
                obs.count('crowds')
                break
    if rng.random() < 0.25 and (d := mutate.form_parts(p, rng)):
        done.append(d)
        obs.count('form_parts')
    if rng.random() < 0.4 and (d := mutate.old_part(p, rng)):
        done.append(d)
    raw, src, out, q, modes = rt.roundtrip(obs, p, rng)
    rt.judge(obs, p, q, out)
    for d in done:
        obs.count('edit_' + d.split(' ')[0])
    obs.count('edits', len(done))
    obs.sig(case['kind'], tuple(done))
    obs.sample(dict(product=case['kind'], edits=done, files=len(p.flat()), schedules=modes))
