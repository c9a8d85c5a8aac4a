"""C19: sources are marked with the version of the tool and built by a compatible one only."""
import json
import os

from vlib import env, mutate, product as P, rt
from vlib.core import case_rng

META = dict(
    level='exploration', timeout=100,
    budget=dict(quick=60, thorough=600),
    rule='extracted sources must bear the version of the tool; the mark is replaced by random versions (patch, minor or '
         'major number changed, numbers compared as numbers and as text, missing, malformed): the build must succeed '
         'exactly if major and minor numbers are those of the tool, and must not write a product otherwise; '
         'distinct = (product, mark)',
    require={'compatible': 20, 'refused': 60},
    assumptions=[],
)
KINDS = {'erf': 8, 'epf803': 8, 'epf802': 6, 'cfe': 6, 'apam': 3, 'cf16': 4}
FILES = ['ExternalDataProcessor.json', 'ConfigurationExtension.json', 'Configuration.json']


def cases(tier, seed):
    k = 1 if tier == 'quick' else 10
    i = 0
    for r in range(k):
        for kind, n in KINDS.items():
            for j in range(n):
                yield dict(kind=kind, seed=seed, i=i)
                i += 1


def run(case, obs):
    rng = case_rng('C19', case['seed'], case['i'])
    p = rt.defuse(P.seed(case['kind']))
    mutate.some(p, rng, rng.randint(0, 1))
    src = os.path.join(obs.tmp, 'ws', 'src')
    opts = dict(auto_include=True) if rng.random() < 0.3 else None
    env.schedule('fifo')
    P.extract(obs, p.dump(None, 1), src, options=opts)
    f = [os.path.join(src, x) for x in FILES if os.path.exists(os.path.join(src, x))][0]
    with open(f, encoding='utf-8') as fd:
        data = json.load(fd)
    mine = env.version.__version__
    obs.check(data.get('v8unpack') == mine, 'mark', f'the sources are marked {data.get("v8unpack")!r}')
    a, b, c = (int(x) for x in mine.split('.'))
    marks = [(f'{a}.{b}.{c}', True), (f'{a}.{b}.{rng.randrange(0, 200)}', True), (f'{a}.{b + rng.randint(1, 30)}.{c}', False),
             (f'{a + rng.randint(1, 3)}.{b}.{c}', False), (f'{b}.{a}.{c}', a == b), (f'{a}.{c}.{b}', c == b),
             (f'{a}{b}.{c}.0', False), (f'{a}.{b}{c}.1', False), (f'{a}.{b}', False), (f'{a}', False), ('', False),
             (None, False), (f'{a}.{b}.{c}.1', False), ('x.y.z', False), (f'0{a}.0{b}.{c}', True),
             (f'{a}.{max(0, b - 1)}.{c}', b == 0), (f'{max(0, a - 1)}.{b}.{c}', a == 0), (f'{a - 1}.{b + 10}.{c}', False),
             (f'{a + 1}.{b - 1}.{c}', False), (f'{a}.{b}{0}.0', b == 0)]
    out = os.path.join(obs.tmp, 'out', 'x.bin')
    for mark, ok in [marks[0]] + rng.sample(marks[1:], 6):
        data.pop('v8unpack', None)
        if mark is not None:
            data['v8unpack'] = mark
        with open(f, 'w', encoding='utf-8') as fd:
            json.dump(data, fd, ensure_ascii=False)
        P.rmtree(os.path.dirname(out))
        try:
            env.v8unpack.build(src, out, options=dict(opts or {}))
            err = None
        except env.ext_exception.ExtException as e:
            err = e
        obs.check((err is None) == ok, 'refused' if ok else 'accepted',
                  f'{mark!r} for {mine}: ' + (P.err_text(err) if err else 'built'))
        obs.check(os.path.exists(out) == ok, 'product', f'{mark!r}: product written: {os.path.exists(out)}')
        obs.count('compatible' if ok else 'refused')
        obs.sig(case['kind'], mark)
    obs.sample(dict(product=case['kind'], tool=mine))
