"""Shared pieces of the round-trip workloads."""
import os
import re

from . import brace, env, mutate, product as P
from .core import Violation


def defuse(p):
    """Regions / form groups named include*_ are references to shared files by design: give them neutral names, so
    that a round trip has to be exact (C09 and C12 look at the references themselves)."""
    for k, v in list(p.main.items()):
        p.main[k] = _defuse(v)
    return p


def _defuse(v):
    if isinstance(v, dict):
        return type(v)((k, _defuse(x)) for k, x in v.items())
    if b'includ' in v:
        v = re.sub(rb'"(includ)(r?e?_)', rb'"x\1\2', v)
        v = re.sub('(#Область[ \\t]+)(includ)'.encode(), '\\1x\\2'.encode(), v)
    return v


def pick_schedule(rng):
    mode = rng.choice(['fifo', 'lifo', 'shuffle', 'window'])
    env.schedule(mode, rng.randrange(1 << 30), rng.randint(2, 8), log=True)
    return mode


def schedule_sigs(obs):
    n = 0
    for name, order in env.SchedulePool.log or ():
        if name != 'pool':
            n += 1
    obs.count('pool_batches', n)


def roundtrip(obs, p, rng, raw=None, tag='', ws='ws', options=None):
    """-> (raw, sources, rebuilt raw, rebuilt product)"""
    raw = raw if raw is not None else p.dump(mutate.random_layout(rng), 1)
    src = os.path.join(obs.tmp, ws, 'src')
    m1 = pick_schedule(rng)
    P.extract(obs, raw, src, 'extract-raises' + tag, options=options)
    schedule_sigs(obs)
    m2 = pick_schedule(rng)
    out = P.build(obs, src, 'build-raises' + tag, options=options)
    schedule_sigs(obs)
    return raw, src, out, P.parse_built(out), (m1, m2)


def judge(obs, p, q, out, tag='', ignore=()):
    n = len(p.flat())
    obs.count('files_compared', n)
    for f, what in P.differences(p, q, ignore):
        obs.violation(what.split(' ')[0] + ':' + kind_of(p, f) + tag, f'{f}: {what}')
    for what in P.consistency(out, q):
        obs.violation('bookkeeping:' + what.split(' ')[0] + tag, what)


def kind_of(p, f):
    """a stable name for what kind of file differs"""
    name = f.split('/', 1)[1]
    parts = name.split('/')
    base = parts[0]
    m = re.match(r'[0-9a-f-]{36}(.*)$', base)
    s = ('obj' + m.group(1)) if m else base
    return '/'.join([s] + parts[1:])
