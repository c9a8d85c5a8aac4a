"""C16: the result does not depend on the number of workers, on which finishes first, or on directory order."""
import functools
import locale
import os
import random
import time

from vlib import env, mutate, product as P, rt
from vlib.core import Violation, case_rng
from checks.c07 import compare

META = dict(
    level='exploration', timeout=240,
    budget=dict(quick=200, thorough=1800),
    rule='the same product is extracted and built repeatedly under different worker counts, completion orders '
         '(chosen orders in a stand-in pool; injected delays in real process pools), directory listing orders and '
         'default text encodings, '
         'with and without auto_include; sources must be byte-identical and the inner files built identical and in '
         'the same order except for the random version ids; distinct = completion orders seen',
    require={'runs': 150, 'real_pool_runs': 8, 'distinct': 100, 'other_default_encoding': 40, 'shuffled_listings': 500, 'auto_include_builds': 10},
    assumptions=['include areas shared by several modules are excluded (documented: the last writer is arbitrary)'],
)


def cases(tier, seed):
    weights = dict(erf=2, epf803=5, epf802=4, cfe=4, apamold=2, apam=2, cf16=4, cf=2)
    k = 1 if tier == 'quick' else 10
    i = 0
    for r in range(k):
        for name, n in weights.items():
            for j in range(n):
                yield dict(kind=name, seed=seed, i=i, auto=j % 2 == 1, real=j % 2 == 0)
                i += 1


_listdir, _scandir = os.listdir, os.scandir
_state = dict(rng=None, n=0)


class Scan:
    def __init__(self, entries):
        self.entries = entries

    def __iter__(self):
        return iter(self.entries)

    def __next__(self):
        if not self.entries:
            raise StopIteration
        return self.entries.pop(0)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def listdir(*a):
    r = sorted(_listdir(*a))
    if _state['rng'] is not None and len(r) > 1:
        _state['rng'].shuffle(r)
        _state['n'] += 1
    return r


def scandir(*a):
    with _scandir(*a) as it:
        r = sorted(it, key=lambda e: e.name)
    if _state['rng'] is not None and len(r) > 1:
        _state['rng'].shuffle(r)
        _state['n'] += 1
    return Scan(r)


def order(rng):
    _state['rng'] = random.Random(rng.randrange(1 << 30)) if rng is not None else None


class Delays:
    """random delays in the tasks that the workers of a real pool run"""
    tasks = [('decoder', 'Decoder', 'decode_include'), ('decoder', 'Decoder', 'encode_include'),
             ('organizer_file', 'OrganizerFile', 'unpack_code_file'),
             ('organizer_form_elem', 'OrganizerFormElem', 'unpack'), ('organizer_form_elem', 'OrganizerFormElem', 'pack'),
             ('organizer_code', 'OrganizerCode', 'pack')]

    def __init__(self, scale):
        self.scale, self.undo = scale, []

    def __enter__(self):
        for mod, cls, name in self.tasks:
            c = getattr(env.load()[mod], cls, None)
            m = c.__dict__.get(name) if c else None
            if isinstance(m, classmethod):
                setattr(c, name, classmethod(self.wrap(m.__func__)))
                self.undo.append((c, name, m))
        return self

    def wrap(self, fn):
        scale = self.scale

        @functools.wraps(fn)
        def run(*a, **k):
            if random.random() < 0.3:
                time.sleep(random.random() * scale)
            return fn(*a, **k)
        return run

    def __exit__(self, *a):
        for c, name, m in self.undo:
            setattr(c, name, m)


def reference(obs, rng):
    locale.setlocale(locale.LC_CTYPE, 'C.UTF-8')
    env.schedule('fifo', 0, 1, log=True)
    order(None)


def disturb(obs, rng):
    rt.pick_schedule(rng)
    order(rng)
    # the encoding that files opened without one get
    locale.setlocale(locale.LC_CTYPE, rng.choice(['C', 'C.UTF-8']))
    if locale.getencoding().lower().replace('-', '') != 'utf8':
        obs.count('other_default_encoding')


def run(case, obs):
    rng = case_rng('C16', case['seed'], case['i'])
    kind = case['kind']
    p = rt.defuse(P.seed(kind))
    done = mutate.some(p, rng, rng.choice([0, 2, 6]))
    if case['i'] % 2 and (d := mutate.deepen(p, rng)):
        done.append(d)
        obs.count('deep_trees')
    if (d := mutate.old_part(p, rng)):
        done.append(d)
        obs.count("old_parts")
    raw = p.dump(None, 1)
    options = {'auto_include': True} if case['auto'] else None
    os.listdir, os.scandir = listdir, scandir
    try:
        reference(obs, rng)
        src = os.path.join(obs.tmp, 'r', 'src')
        P.extract(obs, raw, src, options=options)
        s1 = P.read_dir(src)
        q1 = P.parse_built(P.build(obs, src, options=options))
        n = 3 if kind in ('cf', 'cf16') else 5
        for k in range(n):
            disturb(obs, rng)
            s = os.path.join(obs.tmp, f'd{k}', 'src')
            P.extract(obs, raw, s, options=options)
            log = env.SchedulePool.log
            compare(obs, s1, P.read_dir(s), 'extract-order', f'under order {k}')
            disturb(obs, rng)
            out = P.build(obs, s, options=options)
            for e in (log or []) + (env.SchedulePool.log or []):
                if e[0] != 'pool':
                    obs.sig(e)
            obs.count('runs', 2)
            q = P.parse_built(out)
            built(obs, q1, q, f'under order {k}')
            for w in P.consistency(out, q):
                obs.violation('build-order:bookkeeping', w)
            if options:
                obs.count('auto_include_builds')
        order(None)
    finally:
        os.listdir, os.scandir = _listdir, _scandir
    obs.count('shuffled_listings', _state['n'])
    if case['real'] and not (kind == 'cf' and case['seed'] % 2):
        env.use_real_pool = True
        try:
            for procs in rng.sample([1, 2, 3, 5, 8], 2):
                seed = rng.random()
                s = os.path.join(obs.tmp, f'p{procs}', 'src')
                with Delays(rng.choice([0, 0.01, 0.05])):
                    P.extract(obs, raw, s, options=options, processes=procs)
                    q = P.parse_built(P.build(obs, s, options=options, processes=procs))
                compare(obs, s1, P.read_dir(s), 'extract-workers', f'with {procs} workers')
                built(obs, q1, q, f'with {procs} workers')
                obs.count('real_pool_runs', 2)
                obs.sig('real', kind, procs, seed)
        finally:
            env.use_real_pool = False
    obs.sample(dict(product=kind, edits=done, auto_include=case['auto']))


def built(obs, a, b, what):
    fa, fb = a.flat(), b.flat()
    for f in sorted(set(fa) ^ set(fb)):
        obs.violation('build-order:files', f'{f} only in one of the products built {what}')
    if set(fa) == set(fb):
        d = [(x, y) for x, y in zip(fa, fb) if x != y]
        obs.check(not d, 'build-order:position', f'files stand in another order in the product built {what}: {d[:3]}')
    for f in fa:
        if f in fb and fa[f] != fb[f] and not f.endswith(('/versions', '/configinfo')):
            d = P.differences(a, b, limit=2)
            obs.violation('build-order:content', f'{f} differs {what}: {d[:2]}')
            break
