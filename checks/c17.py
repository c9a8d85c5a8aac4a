"""C17: a failure anywhere is reported: nothing half done is passed off as done."""
import errno
import json
import os
import random
import re
import shutil
import subprocess
import sys

from vlib import env, faults, mutate, product as P, rt
from vlib.core import REPO, Violation, case_rng

META = dict(
    level='exploration', timeout=200,
    budget=dict(quick=150, thorough=1500),
    rule='extractions and builds of real products are repeated while one operation of the file system (open, read, '
         'write, list, make, copy, counted by hooks and spread over the distinct call sites) or one task of one '
         'worker pool fails: the call must raise, or its result must equal the undisturbed one; every kind of '
         'damage to description files (cut, emptied, garbage, not UTF-8, missing, identifiers lost, commands '
         'without their folder) must make the build raise; the command line must exit with 0 exactly when the '
         'result is there; the same with real worker processes; distinct = (product, direction, fault)',
    require={'io_faults': 150, 'worker_faults': 60, 'damaged_files': 60, 'command_lines': 14, 'real_pool_faults': 3, 'crowds': 3},
    assumptions=['a worker process that is killed makes multiprocessing wait for ever; not judged',
                 'removing an object folder (other than of commands) or both files that describe the object removes the object from '
                 'the product; by design'],
)
KINDS = {'erf': 5, 'epf803': 5, 'epf802': 4, 'cfe': 3, 'apam': 2, 'cf16': 1}


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    i = 0
    for r in range(k):
        for kind, n in KINDS.items():
            for what in ('io-extract', 'io-build', 'worker-extract', 'worker-build', 'damage'):
                for j in range(n if what != 'damage' else max(2, n // 2)):
                    yield dict(what=what, kind=kind, seed=seed, i=i, deep=tier != 'quick')
                    i += 1
        for kind in ('epf803', 'apam'):  # batches of hundreds of tasks
            for what in ('worker-extract', 'worker-build'):
                yield dict(what=what, kind=kind, seed=seed, i=i, crowd=320)
                i += 1
        for what in ('cli', 'cli', 'cli', 'real', 'real', 'real', 'real', 'real', 'index'):
            yield dict(what=what, kind='erf', seed=seed, i=i)
            i += 1


class Fault(Exception):
    pass


def do(obs, direction, src_or_raw, out, options=None, index=None):
    """-> exception or None"""
    try:
        if direction == 'extract':
            env.v8unpack.extract(src_or_raw, out, options=dict(options or {}), index=index)
        else:
            env.v8unpack.build(src_or_raw, out, options=dict(options or {}), index=index)
    except Exception as e:
        return e
    return None


def result(direction, out):
    if direction == 'extract':
        return P.read_dir(out) if os.path.isdir(out) else None
    try:
        with open(out, 'rb') as f:
            raw = f.read()
        return raw
    except FileNotFoundError:
        return None


def same(direction, a, b):
    if b is None:
        return 'no result'
    if direction == 'extract':
        bad = sorted(f for f in set(a) | set(b) if a.get(f) != b.get(f))
        return f'{len(bad)} source files differ: {bad[:3]}' if bad else None
    try:
        p, q = P.parse(a), P.parse(b)
    except Exception as e:
        return f'the file is not legal: {e!r}'
    d = P.differences(p, q) + [('', x) for x in P.consistency(b, q)]
    return str(d[:2])[:400] if d else None


def run(case, obs):
    rng = case_rng('C17', case['seed'], case['i'])
    what = case['what']
    if what in ('cli', 'real', 'index'):
        return globals()['run_' + what](case, obs, rng)
    p = rt.defuse(P.seed(case['kind']))
    if rng.random() < 0.5:
        mutate.some(p, rng, 2)
    for _ in range(8 if case.get('crowd') else 0):
        if mutate.crowd(p, rng, case['crowd']):
            obs.count('crowds')
            break
    raw = p.dump(None, 1)
    path = P.write(os.path.join(obs.tmp, '.in', 'in.bin'), raw)
    direction = 'build' if what in ('io-build', 'worker-build', 'damage') else 'extract'
    src = path
    if direction == 'build':
        src = os.path.join(obs.tmp, 'ref', 'src')
        env.schedule('fifo')
        P.extract(obs, raw, src)
    if what == 'damage':
        return damage(case, obs, rng, src, raw)
    ref = os.path.join(obs.tmp, 'w', 'out')
    env.schedule('fifo')
    if what.startswith('io'):
        with faults.Injector(obs.tmp) as inj:
            err = do(obs, direction, src, ref)
        total = inj.n
        obs.notes['operations'] = inj.seen
    else:
        err = do(obs, direction, src, ref)
        total = env.SchedulePool.seen
    if err:
        raise Violation('undisturbed-raises', P.err_text(err))
    want = result(direction, ref)
    if total < 1:
        obs.count('nothing_to_disturb')  # no task was handed to the workers
        return
    if what.startswith('io'):
        # one operation of every place in the code, in the order of a draw
        places = {}
        for n, x in enumerate(inj.log, 1):
            places.setdefault(x, []).append(n)
        keys = sorted(places, key=str)
        rng.shuffle(keys)
        points = [rng.choice(places[k]) for k in keys[:240 if case.get('deep') else 45]]
        obs.count('places', len(keys))
        inj_log = inj.log
    else:
        points = rng.sample(range(1, total + 1), min(total, 5 if case.get('crowd') else 14))
        if case.get('crowd'):  # late in a long batch
            points = sorted(set(points) | {total // 2 + 60, total - 20, total})
    for at in sorted(points):
        out = os.path.join(obs.tmp, f'w{at}', 'out')
        env.schedule('fifo')
        if what.startswith('io'):
            e = rng.choice([errno.EIO, errno.ENOSPC, errno.EACCES])
            if direction == 'extract' and rng.random() < 0.4:  # extracted over older sources
                for f in ('Form/Старая/Form.id.json', 'x.bsl', 'Catalog/Был/Catalog.json'):
                    P.write(os.path.join(out, f), b'{"stale": 1}')
            with faults.Injector(obs.tmp, at, e, lasting=rng.random() < 0.5) as inj:
                err = do(obs, direction, src, out)
            fired = inj.fired
            label = f'{fired[0]} {errno.errorcode[e]}' if fired else None
            if fired:
                obs.sig('place', inj_log[at - 1])
            obs.count('io_faults', int(bool(fired)))
        else:
            env.SchedulePool.fail_at = (at, rng.choice([Fault('x'), env.ext_exception.ExtException(message='x'),
                                                        KeyError('x'), FileNotFoundError(2, 'x'), ValueError('x'),
                                                        OSError(errno.ENOSPC, 'x')]))
            label = f'worker {type(env.SchedulePool.fail_at[1]).__name__}'
            fired = True
            err = do(obs, direction, src, out)
            env.SchedulePool.fail_at = None
            obs.count('worker_faults')
        if not fired:
            continue
        if err is None:
            bad = same(direction, want, result(direction, out))
            if bad:
                obs.violation(f'silent:{direction}:{label.split(" ")[0]}',
                              f'{label} at operation {at} of {total} ({fired}): returned normally, {bad}')
            obs.count('tolerated_faults')
        else:
            obs.count('reported_faults')
            obs.check(isinstance(err, env.ext_exception.ExtException), 'foreign-exception',
                      f'{label}: {type(err).__name__} left the interface: {err}')
        obs.sig(case['kind'], direction, label, at)
        P.rmtree(os.path.join(obs.tmp, f'w{at}'))
    obs.sample(dict(product=case['kind'], direction=direction, operations=total))


def damage(case, obs, rng, src, raw):
    """broken description files"""
    files = sorted(P.read_dir(src))
    js = [f for f in files if f.endswith('.json')]
    out = os.path.join(obs.tmp, 'o', 'out')
    sorts = {}
    for f in js:
        sorts.setdefault((f.count('/'), f.split('/')[0], '.'.join(os.path.basename(f).split('.')[1:])), []).append(f)
    keys = sorted(sorts)
    rng.shuffle(keys)
    for f in [rng.choice(sorts[k]) for k in keys[:100 if case.get('deep') else 30]]:
        full = os.path.join(src, f)
        with open(full, 'rb') as fd:
            old = fd.read()
        how = rng.choice(['cut', 'cut', 'empty', 'garbage', 'encoding', 'list', 'missing'])
        twin = f[:-8] + '.json' if f.endswith('.id.json') else f[:-5] + '.id.json'
        if how == 'missing' and not f.endswith('.elem.json') and ('/' in f or f.count('.') != 1) and twin not in files:
            how = 'cut'  # a file of internals without a name is optional
        if how == 'missing':
            os.remove(full)
        else:
            text = {'cut': old[:rng.randrange(1, max(2, len(old) - 2))], 'empty': b'', 'garbage': b'\x00\x01{]',
                    'encoding': old[:1] + b'"\xd0\xff": 1,' + old[1:], 'list': b'[1, 2'}[how]
            with open(full, 'wb') as fd:
                fd.write(text)
        env.schedule('fifo')
        P.rmtree(os.path.dirname(out))
        os.makedirs(os.path.dirname(out))
        err = do(obs, 'build', src, out)
        with open(full, 'wb') as fd:
            fd.write(old)
        obs.count('damaged_files')
        kind = '.'.join(os.path.basename(f).split('.')[1:])
        obs.check(err is not None, f'damage:{how}:{kind}', f'{f} damaged ({how}): the build reports success')
        obs.sig(case['kind'], how, f)
    # commands are described inside their object: without their folder its description cannot be put together
    folders = sorted({os.path.dirname(os.path.dirname(f)) for f in files
                      if f.split('/')[-3:][0].endswith('Command') and f.split('/')[-3] != 'CommonCommand'})
    for f in rng.sample(folders, min(len(folders), 2)):
        os.rename(os.path.join(src, f), os.path.join(obs.tmp, 'lost'))
        P.rmtree(os.path.dirname(out))
        os.makedirs(os.path.dirname(out))
        err = do(obs, 'build', src, out)
        os.rename(os.path.join(obs.tmp, 'lost'), os.path.join(src, f))
        obs.count('lost_folders')
        obs.check(err is not None, 'lost-folder', f'{f} removed: the build reports success')
    env.schedule('fifo')
    P.rmtree(os.path.dirname(out))
    os.makedirs(os.path.dirname(out))
    if (e := do(obs, 'build', src, out)):
        raise Violation('restored-raises', P.err_text(e))


def cli(obs, args, cwd):
    e = dict(os.environ, PYTHONPATH=os.path.join(REPO, 'src'), PYTHONDONTWRITEBYTECODE='1', TQDM_DISABLE='1',
             PYTHONIOENCODING='utf-8', TMPDIR=obs.dir('.sys'))
    r = subprocess.run([sys.executable, '-m', 'v8unpack'] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    obs.count('command_lines')
    return r.returncode, r.stdout.decode('utf-8', 'replace')


def run_cli(case, obs, rng):
    ws = obs.dir('cli')
    raw = P.raw_seed('erf')
    P.write(os.path.join(ws, 'a.erf'), raw)

    def expect(args, ok, result_path=None, what=''):
        code, text = cli(obs, args, ws)
        obs.sig('cli', args[0], ok, what)
        if ok:
            obs.check(code == 0, 'cli:fails', f'{args} exits with {code}: {text[-500:]}')
            obs.check(os.path.exists(os.path.join(ws, result_path)), 'cli:no-result', f'{args} wrote no {result_path}')
        else:
            obs.check(code != 0, 'cli:success', f'{args} ({what}) exits with 0: {text[-500:]}')
            obs.check(bool(text.strip()), 'cli:mute', f'{args} ({what}) says nothing')

    expect(['-E', 'a.erf', 'src'], True, 'src')
    expect(['-B', 'src', 'b.erf'], True, 'b.erf')
    prod = {'one': dict(src='src', bin='one.erf'), 'two': dict(src='src', bin='two.erf')}
    with open(os.path.join(ws, 'products.json'), 'w') as f:
        json.dump(prod, f)
    expect(['-BA', 'products.json'], True, 'two.erf')
    bad = rng.choice([raw[:len(raw) // 2], b'', b'no container', raw[:64]])
    P.write(os.path.join(ws, 'bad.erf'), bad)
    todo = [(['-E', 'none.erf', 'x'], 'no file'), (['-E', 'bad.erf', 'x'], 'damaged file'),
            (['-B', 'none', 'x.erf'], 'no sources'), (['-BA', 'none.json'], 'no products'),
            (['-EA', 'none.json'], 'no products'), (['-IA', 'none.json'], 'no products'),
            (['-BA', 'products.json', '--index', 'three'], 'no such product'),
            (['-E', 'a.erf', 'x', '--index', 'none.json'], 'no index'),
            (['-B', 'src', 'x.erf', '--index', 'none.json'], 'no index'),
            (['-B', 'src', 'src'], 'the result is a folder'), (['-X'], 'no such option'),
            (['-B', 'src'], 'an argument is missing'), (['-E', 'a.erf', 'x', '--descent', 'y'], 'bad number'), ]
    for args, what in rng.sample(todo, 5):
        expect(args, False, what=what)
    # one of several products cannot be built
    src = os.path.join(ws, 'src')
    js = sorted(f for f in P.read_dir(src) if f.endswith('.json'))
    shutil.copytree(src, os.path.join(ws, 'src2'))
    f = rng.choice(js)
    with open(os.path.join(ws, 'src2', f), 'r+b') as fd:
        fd.truncate(2)
    prod = {'one': dict(src='src', bin='one.erf'), 'two': dict(src='src2', bin='bad2.erf')}
    if rng.random() < 0.5:
        prod = dict(reversed(list(prod.items())))
    with open(os.path.join(ws, 'products.json'), 'w') as fd:
        json.dump(prod, fd)
    expect(['-BA', 'products.json'], False, what=f'{f} of one product is damaged')
    expect(['-B', 'src2', 'y.erf'], False, what=f'{f} is damaged')


def run_real(case, obs, rng):
    """real worker processes: the n-th task of one kind raises inside a worker"""
    env.use_real_pool = True
    try:
        real(obs, rng)
    finally:
        env.use_real_pool = False


def real(obs, rng):
    kind = rng.choice(['erf', 'epf803', 'cfe'])
    raw = P.raw_seed(kind)
    path = P.write(os.path.join(obs.tmp, '.in', 'in.bin'), raw)
    src = os.path.join(obs.tmp, 'src')
    if (e := do(obs, 'extract', path, src)):
        raise Violation('undisturbed-raises', P.err_text(e))
    direction = rng.choice(['extract', 'build'])
    # workers inherit the fault by fork
    exc = rng.choice([ValueError('x'), KeyError('x'), OSError(errno.ENOSPC, 'x'),
                      env.ext_exception.ExtException(message='x', detail='y')])
    main = os.getpid()
    import builtins
    real_open = builtins.open
    state = dict(n=rng.randint(0, 1))
    hits = os.path.join(obs.tmp, 'hit')

    def open_(file, mode='r', *a, **k):
        if os.getpid() != main and isinstance(file, str) and any(c in mode for c in 'wa'):
            state['n'] -= 1
            if state['n'] < 0:
                with real_open(hits, 'a') as f:
                    f.write('x')
                raise exc
        return real_open(file, mode, *a, **k)

    builtins.open = open_
    try:
        out = os.path.join(obs.tmp, 'x', 'out')
        os.makedirs(os.path.dirname(out))
        err = do(obs, direction, path if direction == 'extract' else src, out)
    finally:
        builtins.open = real_open
    if os.path.exists(hits):
        obs.count('real_pool_faults')
        obs.check(err is not None, f'real:{direction}', f'{type(exc).__name__} in a worker: success reported')
    obs.sig('real', kind, direction, type(exc).__name__, state['n'])


def run_index(case, obs, rng):
    """an index that lists nothing is an index all the same"""
    ws = obs.dir('i')
    raw = P.raw_seed('erf')
    path = P.write(os.path.join(ws, 'a.erf'), raw)
    idx = os.path.join(ws, 'index.json')
    with open(idx, 'w') as f:
        f.write('{}')
    err = do(obs, 'extract', path, os.path.join(ws, 'src'), index=idx)
    if err is None:
        obs.check(os.path.isdir(os.path.join(ws, 'src')) and os.listdir(os.path.join(ws, 'src')), 'empty-index:extract',
                  'extract with an empty index reports success and writes nothing')
    P.extract(obs, raw, os.path.join(ws, 'src2'))
    out = os.path.join(ws, 'b.erf')
    err = do(obs, 'build', os.path.join(ws, 'src2'), out, index=idx)
    if err is None:
        obs.check(os.path.exists(out), 'empty-index:build', 'build with an empty index reports success and writes nothing')
    obs.sig('index')
