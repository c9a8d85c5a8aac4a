"""C33: a run that was interrupted can be repeated."""
import json
import os
import shutil

from vlib import env, faults, mutate, product as P, rt
from vlib.core import case_rng
from checks import c16
from checks.c07 import compare

META = dict(
    level='exploration', timeout=240,
    budget=dict(quick=150, thorough=1800),
    rule='extractions (into an empty folder, over other sources, beside other versions, with an index) and builds of '
         'edited real products are killed at one file operation, spread over the distinct places in the code '
         '(torn writes included), some twice, and then run again with the same arguments, in the state of the folders '
         'left behind; sources and product must be those of a run never interrupted, a killed build must leave the '
         'sources as they were; distinct = (operation, place of the kill)',
    require={'kills': 250, 'torn_writes': 30, 'twice': 20, 'beside_versions': 30, 'with_index': 20, 'same_temp': 30,
             'builds': 80, 'distinct': 120},
    assumptions=['the death of the process is judged, not the loss of data the system had already taken (power failure)'],
)
KINDS = dict(erf=5, epf803=8, epf802=6, cfe=8, apamold=3, apam=3, cf16=5)


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    i = 0
    for r in range(k):
        for kind, n in KINDS.items():
            for j in range(n):
                yield dict(kind=kind, seed=seed, i=i, what=('extract', 'build')[j % 3 == 2],
                           descent=j % 4 == 1, deep=tier != 'quick')
                i += 1


def call(what, ws, options, index, temp):
    kw = dict(options=dict(options), index=index and os.path.join(ws, index), temp_dir=temp and os.path.join(ws, temp))
    src = os.path.join(ws, 'w', 'src')
    if what == 'extract':
        env.v8unpack.extract(os.path.join(ws, 'in.bin'), src, **kw)
    else:
        env.v8unpack.build(src, os.path.join(ws, 'out.bin'), **kw)


def run(case, obs):
    rng = case_rng('C33', case['seed'], case['i'])
    what = case['what']
    p = rt.defuse(P.seed(case['kind']))
    mutate.some(p, rng, rng.choice([0, 3]))
    base, ws = os.path.join(obs.tmp, 'base'), os.path.join(obs.tmp, 'ws')
    src = os.path.join(base, 'w', 'src')
    options = {'auto_include': True} if rng.random() < 0.3 else {}
    index = temp = None
    env.schedule(rng.choice(['fifo', 'lifo', 'shuffle']), rng.randrange(1000), 2)
    if case['descent']:
        options['descent'] = 3000076
        for v in rng.sample([3000070, 3000075, 3000080], rng.choice([1, 2])):
            q = p.copy()
            mutate.some(q, rng, 3, [mutate.module, mutate.localized, mutate.payload, mutate.synonym])
            P.extract(obs, q.dump(None, 1), src, options=dict(options, descent=v))
    elif what == 'build' or rng.random() < 0.5:  # other sources are there already
        q = p.copy()
        mutate.some(q, rng, 3)
        P.extract(obs, q.dump(None, 1), src, options=options)
        if rng.random() < 0.5:
            names = sorted(P.read_dir(src))
            d = 'core/file.x'
            for part in reversed(rng.choice(names).split('/')):
                d = {part: d}
            P.write(os.path.join(base, 'index.json'), json.dumps(d).encode())
            index = 'index.json'
            P.extract(obs, q.dump(None, 1), src, options=options, index=os.path.join(base, index))
    P.write(os.path.join(base, 'in.bin'), p.dump(mutate.random_layout(rng), 1))
    if what == 'build' and rng.random() < 0.5:
        P.write(os.path.join(base, 'out.bin'), b'an older product' * 100000)
    if rng.random() < 0.4:
        temp = 'temp'

    ref = os.path.join(obs.tmp, 'ref')
    shutil.copytree(base, ref)
    with faults.Injector(obs.tmp) as inj:
        call(what, ref, options, index, temp)
    before = P.read_dir(os.path.join(base, 'w')) if os.path.isdir(os.path.join(base, 'w')) else {}
    want = P.read_dir(os.path.join(ref, 'w'))
    product = P.parse_built(open(os.path.join(ref, 'out.bin'), 'rb').read()) if what == 'build' else None
    groups = {}
    for n, x in enumerate(inj.log):
        own = x[0] == 'copy' and '3000076.' in x[1] and not x[1].endswith('json')  # a binary beside another version
        groups.setdefault((x[0], x[2], *(['own'] if own else [])), []).append(n + 1)
    keys = sorted(groups)
    rng.shuffle(keys)
    torn = [k for k in keys if k[0] in ('copy', 'write')]  # copies to the sources and the last steps among them
    keys = torn[:3] + [k for k in torn if 'own' in k] * 2 + [k for k in torn if k[0] == 'copy'][:2] * 2 + [k for k in keys if k not in torn[:3]]
    for key in keys[:24 if case['deep'] else 13]:
        at = rng.choice(groups[key])
        shutil.rmtree(ws, ignore_errors=True)
        shutil.copytree(base, ws)
        twice = rng.random() < 0.2
        for n in range(1 + twice):
            pid = os.fork()
            if not pid:
                try:
                    k = faults.Killer(obs.tmp, at if not n else rng.randint(1, len(inj.log)))
                    k.part = rng.random()
                    with k:
                        call(what, ws, options, index, temp)
                except BaseException:
                    os._exit(3)
                os._exit(0)
            code = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            if code == 77:
                obs.count('kills')
                if key[0] in ('write', 'copy'):
                    obs.count('torn_writes')
                obs.sig(what, bool(case['descent']), *key)
        how = f'after a kill at {key[0]} in {key[1][:1]}'
        if what == 'build':
            compare(obs, before, P.read_dir(os.path.join(ws, 'w')), 'kill-changes-sources', how)
        try:
            call(what, ws, options, index, temp)
        except Exception as e:
            obs.violation(f'repeat-fails:{what}', f'{how} the {what} run again fails: {P.err_text(e)}')
            continue
        compare(obs, want, P.read_dir(os.path.join(ws, 'w')), f'repeat-differs:{what}', how)
        if product:
            got = P.parse_built(open(os.path.join(ws, 'out.bin'), 'rb').read())
            c16.built(obs, product, got, how)
            obs.count('builds')
        obs.count('assertions')
        for flag, name in ((twice, 'twice'), (case['descent'], 'beside_versions'), (index, 'with_index'),
                           (temp, 'same_temp')):
            if flag:
                obs.count(name)
    obs.sample(dict(product=case['kind'], operation=what, options=options, index=bool(index), operations=len(inj.log)))
