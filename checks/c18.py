"""C18: the tool changes nothing but what it was asked to write, whatever names the product holds."""
import json
import os
import subprocess
import sys
import tempfile

from vlib import env, mutate, product as P, rt
from vlib.core import Violation, case_rng
from vlib.watch import Watch

META = dict(
    level='exploration', timeout=120,
    budget=dict(quick=120, thorough=1200),
    rule='extractions and builds run under a monitor of every file-system change (audit hook of the interpreter) and '
         'between two snapshots of the workspace: changes outside of the output, the temporary folder and the index '
         'targets are violations, so is any change to the sources of a build or the file extracted, and a temporary '
         'folder left behind; products with hostile names (of files in the container, of objects, of areas: dots, '
         'slashes, absolute paths) must raise or stay inside; names taken in the system temporary folder are '
         'given to somebody else before the next run, and several real runs go on at once; distinct = (product, direction, variant)',
    require={'fs_events': 5000, 'hostile_products': 60, 'hostile_refused': 30, 'clean_calls': 60, 'with_index': 3, 'sentinels': 300,
             'stale_temp': 10, 'failed_calls': 30,
             'taken_temp_names': 10, 'runs_together': 12},
    assumptions=['areas whose name starts with underscores are placed above the sources by documentation',
                 'sources are trusted: hostile names are tried in products only'],
)
KINDS = {'erf': 5, 'epf803': 6, 'epf802': 5, 'cfe': 4, 'apam': 3, 'cf16': 3}


def cases(tier, seed):
    k = 1 if tier == 'quick' else 12
    i = 0
    for r in range(k):
        for kind, n in KINDS.items():
            for what in ('plain', 'stale', 'fail', 'member', 'name', 'area', 'together'):
                for j in range(n if what not in ('stale', 'together') else 1 if what == 'together' else 2):
                    yield dict(what=what, kind=kind, seed=seed, i=i)
                    i += 1


def snapshot(root, skip=()):
    r = {}
    for dp, dn, fn in os.walk(root):
        for f in fn + [d for d in dn if os.path.islink(os.path.join(dp, d))]:
            full = os.path.join(dp, f)
            if any(full == s or full.startswith(s + os.sep) for s in skip):
                continue
            st = os.lstat(full)
            if os.path.islink(full):
                r[os.path.relpath(full, root)] = ('link', os.readlink(full))
            else:
                with open(full, 'rb') as fd:
                    r[os.path.relpath(full, root)] = (fd.read(), st.st_mtime_ns, st.st_mode)
    return r


def changed(a, b):
    return sorted(f for f in set(a) | set(b) if a.get(f) != b.get(f))


def workspace(obs, rng):
    """sentinels beside everything the tool is asked to write; deep enough for a few steps up"""
    base = os.path.join(obs.tmp, 'w')
    deep = os.path.join(base, 'l1', 'l2', 'l3', 'l4', 'l5', 'l6')
    ws = dict(base=base, out=os.path.join(deep, 'src'), temp=os.path.join(deep, 'tmp', 'a', 'b', 'c', 'd', 'e'),
              bin=os.path.join(deep, 'bin', 'product.bin'))
    d = base
    dirs = [base]
    for x in ('l1', 'l2', 'l3', 'l4', 'l5', 'l6'):
        d = os.path.join(d, x)
        dirs.append(d)
    dirs += [os.path.join(deep, 'bin'), os.path.join(deep, 'src2'), os.path.join(deep, 'srcx', 'src'),
             os.path.join(deep, 'tmp'), os.path.join(deep, 'tmp', 'a', 'b')]
    for x in dirs:
        for f in ('evil', 'evil.bsl', 'root', 'version', 'evil.json', 'info', 'Форма.obj.bsl'):
            P.write(os.path.join(x, f), b'sentinel ' + os.urandom(0) + f.encode())
    obs.count('sentinels', 7 * len(dirs))
    return ws


def used_temp(fn, src, dst, **kw):
    """names a run takes for itself in the system's temporary folder"""
    sysdir = tempfile.gettempdir()
    with Watch() as w:
        try:
            fn(src, dst, **kw)
        except Exception:
            pass
    return sorted({os.path.relpath(p, sysdir).split(os.sep)[0] for _, p in w.events if p.startswith(sysdir + os.sep)})


def call(obs, ws, fn, src, dst, temp, allowed_trees, allowed_files=(), tag='', twice=False, **kw):
    """-> exception or None; every change outside is a violation"""
    foreign = []
    if twice and temp is None:  # what an earlier run called its folder may since belong to somebody else
        for name in used_temp(fn, src, dst, **kw):
            f = os.path.join(tempfile.gettempdir(), name, 'чужое')
            if not os.path.lexists(os.path.dirname(f)):
                foreign.append(P.write(f, b'foreign'))
                obs.count('taken_temp_names')
    try:
        return _call(obs, ws, fn, src, dst, temp, allowed_trees, allowed_files, tag, **kw)
    finally:
        for f in foreign:
            if not os.path.isfile(f):
                obs.violation(f'foreign-temp{tag}', 'a folder in the system\'s temporary folder that was there '
                                                    'before the run was cleared or removed')
            P.rmtree(os.path.dirname(f))


def _call(obs, ws, fn, src, dst, temp, allowed_trees, allowed_files=(), tag='', **kw):
    skip = [os.path.realpath(x) for x in list(allowed_trees) + list(allowed_files)]
    before = snapshot(ws['base'], skip)
    there = {os.path.join(dp, x) for dp, dn, fn in os.walk(os.path.realpath(ws['base'])) for x in dn + fn}
    sysdir = tempfile.gettempdir()
    left = set(os.listdir(sysdir))
    there |= {os.path.join(os.path.realpath(sysdir), x) for x in left}
    cwd = os.listdir('.')
    with Watch() as w:
        try:
            fn(src, dst, temp_dir=temp, **kw)
            err = None
        except Exception as e:
            err = e
    obs.count('fs_events', len(w.events))
    trees = list(allowed_trees) + ([temp] if temp else [os.path.join(sysdir, x) for x in
                                                         {os.path.relpath(p, sysdir).split(os.sep)[0]
                                                          for _, p in w.events if p.startswith(sysdir + os.sep)} - left])
    for ev, p in w.outside(trees, allowed_files, existed=there.__contains__)[:3]:
        obs.violation(f'outside:{ev}{tag}', f'{ev} of {p.replace(obs.tmp, "<scratch>")}')
    bad = changed(before, snapshot(ws['base'], skip + ([temp] if temp else [])) |
                  {k: v for k, v in before.items() if temp and os.path.join(ws['base'], k).startswith(temp + os.sep)})
    obs.check(not bad, f'changed{tag}', f'changed or made although no output: {bad[:4]}')
    obs.check(os.listdir('.') == cwd, f'cwd{tag}', 'something appeared in the current folder')
    extra = set(os.listdir(sysdir)) - left
    obs.check(not extra, f'temp-left{tag}' + ('' if err is None else ':failed'),
              f'left in the temporary folder: {sorted(extra)[:3]}')
    for x in extra:
        P.rmtree(os.path.join(sysdir, x))
    return err


def run(case, obs):
    rng = case_rng('C18', case['seed'], case['i'])
    what = case['what']
    p = rt.defuse(P.seed(case['kind']))
    mutate.some(p, rng, rng.randint(0, 2))
    ws = workspace(obs, rng)
    env.schedule('fifo')
    if what == 'fail':
        return failing(case, obs, rng, p, ws)
    if what == 'together':
        return together(case, obs, rng, p)
    if what in ('plain', 'stale'):
        return plain(case, obs, rng, p, ws, what == 'stale')
    obs.count('hostile_products')
    label = globals()['hostile_' + what](p, rng, ws)
    if label is None:
        return
    raw = p.dump(None, 1)
    path = P.write(os.path.join(obs.tmp, '.in', 'in.bin'), raw)
    temp = rng.choice([None, ws['temp'], ws['temp']])
    opts = rng.choice([None, None, dict(descent=3000075)]) if what != 'member' else None
    out = ws['out']
    if opts:
        out = os.path.join(out, 'conf')
    err = call(obs, ws, env.v8unpack.extract, path, out, temp, [out], options=opts, tag=f':{what}')
    if what == 'area' and err is None and label.get('documented'):
        obs.violations[:] = []  # an area above the sources is where the documentation puts it
    obs.count('hostile_refused' if err is not None else 'hostile_contained')
    obs.check(err is None or isinstance(err, env.ext_exception.ExtException), 'foreign-exception', repr(err))
    obs.sig(case['kind'], what, str(label), temp is None)
    obs.sample(dict(product=case['kind'], hostile=label, refused=err is not None))


def plain(case, obs, rng, p, ws, stale):
    raw = p.dump(mutate.random_layout(rng), 1)
    path = P.write(os.path.join(ws['base'], 'in', 'in.bin'), raw)
    opts = rng.choice([None, None, dict(descent=rng.choice([3000075, 0, 1])), dict(auto_include=True),
                       dict(version='80316')])
    if opts and 'version' in opts and case['kind'] not in ('cfe', 'apam', 'cf16'):
        opts = None
    out = ws['out'] if not (opts and 'descent' in opts) else os.path.join(ws['out'], 'conf')
    temp = rng.choice([None, ws['temp']])
    kw, more = {}, []
    if rng.random() < 0.4:
        objects = [o for o in mutate.objects(p).values()]
        index = {'Form': {'*': 'core/Form'}, 'version.bin': None,
                 'Нет': {'*': 'core/нет'}}
        for o in objects[:20]:
            kind = o.type
            index.setdefault(kind, {}).setdefault(o.name, {'*': f'core/{kind}/{o.name}'})
        kw['index'] = P.write(os.path.join(ws['base'], 'in', 'index.json'), json.dumps(index, ensure_ascii=False).encode())
        more = [os.path.join(os.path.dirname(ws['out']), 'core')]
        obs.count('with_index')
    if stale:
        # whatever was in the output and in the temporary folder must not matter (and links are not followed)
        temp = ws['temp']
        target = os.path.join(ws['base'], 'elsewhere')
        P.write(os.path.join(target, 'precious'), b'x')
        for t, names in ((temp, ('decode_stage_0/0/evil', 'decode_stage_1/0/root', 'decode_stage_3/evil.json',
                                 'encode_stage_3/evil.json', 'encode_stage_1/0/evil', 'encode_stage_0/0/evil', 'x')),
                         (out, ('evil.bsl', 'Form/Форма/Form.json', 'Configuration.json'))):
            for n in names:
                P.write(os.path.join(t, n), b'{"stale": 1}')
            os.symlink(target, os.path.join(t, 'link'))
        obs.count('stale_temp')
        if opts and 'descent' in opts:
            opts, out = None, ws['out']
    kept = P.write(os.path.join(out, 'Другое', 'прежнее.json'), b'{}') if opts and 'descent' in opts else None
    if (err := call(obs, ws, env.v8unpack.extract, path, out, temp, [out] + more, options=opts, twice=not (opts and 'descent' in opts),
                    **kw)):
        raise Violation('extract-raises', P.err_text(err))
    if kept:
        obs.check(os.path.isfile(kept), 'other-version-lost', 'sources of another version are gone after an extraction')
        P.rmtree(os.path.dirname(kept))
        obs.count('beside_versions')
    obs.count('clean_calls')
    obs.check(open(path, 'rb').read() == raw, 'input-changed', 'the file extracted was changed')
    if stale:
        fresh = os.path.join(obs.tmp, 'fresh', 'src')
        P.extract(obs, raw, fresh, options=opts, **kw)
        a, b = P.read_dir(fresh), P.read_dir(out)
        bad = [f for f in set(a) | set(b) if a.get(f) != b.get(f)]
        obs.check(not bad, 'stale-sources', f'what was in the folders before matters: {sorted(bad)[:3]}')
    # the build: sources are read only in effect
    before = snapshot(ws['out'])
    if stale:
        for n in ('encode_stage_1/0/evil', 'encode_stage_1/1/evil', 'encode_stage_0/0/evil', 'encode_stage_0/1/evil',
                  'encode_stage_0/2/evil', 'encode_stage_3/Evil/evil.json'):
            P.write(os.path.join(temp, n), b'{"stale": 1}')
        P.write(ws['bin'], b'stale' * 1000000)
    if (err := call(obs, ws, env.v8unpack.build, out, ws['bin'], temp, [], [ws['bin']], options=opts, tag=':build',
                    twice=True, **kw)):
        raise Violation('build-raises', P.err_text(err))
    obs.count('clean_calls')
    bad = changed(before, snapshot(ws['out']))
    obs.check(not bad, 'sources-changed', f'the build changed its sources: {bad[:4]}')
    got = open(ws['bin'], 'rb').read()
    if stale:
        ref = P.build(obs, fresh, options=opts, fname='product.bin', **kw)
        d = P.differences(P.parse_built(ref), P.parse_built(got))
        obs.check(not d, 'stale-build', f'what was in the folders before matters: {d[:2]}')
    obs.sig(case['kind'], 'plain', str(opts), temp is None, stale)


def together(case, obs, rng, p):
    """several real runs at the same time, with nothing in common but the system's temporary folder"""
    tmp = os.path.join(obs.tmp, 'systmp')
    os.makedirs(tmp)
    e = dict(os.environ, PYTHONPATH=env.SRC, TQDM_DISABLE='1', PYTHONDONTWRITEBYTECODE='1', TMPDIR=tmp)
    raws = [p.dump(None, 1)]
    for _ in range(rng.randint(1, 3)):
        q = p.copy() if rng.random() < 0.5 else rt.defuse(P.seed(rng.choice(['epf803', 'erf', 'epf802', 'cfe'])))
        mutate.some(q, rng, 2)
        raws.append(q.dump(None, 1))
    n = len(raws)
    at = lambda j, *x: os.path.join(obs.tmp, f'run{j}', *x)

    def all_at_once(args):
        run = [subprocess.Popen([sys.executable, '-m', 'v8unpack', *args(j), '--processes', '2'], cwd=obs.tmp, env=e,
                                stdout=subprocess.PIPE, stderr=subprocess.STDOUT) for j in range(n)]
        for j, r in enumerate(run):
            out, _ = r.communicate(timeout=100)
            obs.count('runs_together')
            obs.check(r.returncode == 0, 'together-fails', f'{args(j)[0]} fails beside others of its kind: '
                                                           f'{out.decode("utf-8", "replace")[-300:]}')
        obs.check(not os.listdir(tmp), 'together-temp-left', f'left in the temporary folder: {os.listdir(tmp)[:3]}')

    for j in range(n):
        P.write(at(j, 'in.bin'), raws[j])
    all_at_once(lambda j: ['-E', at(j, 'in.bin'), at(j, 'ws', 'src')])
    for j in range(n):
        alone = at(j, 'alone', 'src')
        P.extract(obs, raws[j], alone)
        a, b = P.read_dir(alone), P.read_dir(at(j, 'ws', 'src'))
        bad = sorted(f for f in set(a) | set(b) if a.get(f) != b.get(f))
        obs.check(not bad, 'together-sources', f'an extraction beside others gives something else: {bad[:3]}')
    if obs.violations:
        return
    all_at_once(lambda j: ['-B', at(j, 'ws', 'src'), at(j, 'out.bin')])
    for j in range(n):
        for f, d in P.differences(P.parse(raws[j]), P.parse_built(open(at(j, 'out.bin'), 'rb').read()), ('versions',)):
            obs.violation('together-product', f'a build beside others gives something else: {f}: {d}')
    obs.sig(case['kind'], 'together', n, case['i'])


def failing(case, obs, rng, p, ws):
    """a run that fails half way confines itself too, and cleans up after itself"""
    raw = p.dump(None, 1)
    path = os.path.join(ws['base'], 'in', 'in.bin')
    temp = rng.choice([None, None, ws['temp']])
    how = rng.choice(['task', 'cut', 'index'])
    kw = {}
    data = raw
    if how == 'task':
        env.SchedulePool.fail_at = (rng.randint(1, 6), RuntimeError('injected'))
    elif how == 'cut':
        data = raw[:rng.randrange(16, len(raw))]
    else:
        kw['index'] = P.write(os.path.join(ws['base'], 'in', 'index.json'), b'{')
    P.write(path, data)
    err = call(obs, ws, env.v8unpack.extract, path, ws['out'], temp, [ws['out']], tag=':fail', **kw)
    obs.count('failed_calls', err is not None)
    env.schedule('fifo')
    P.extract(obs, raw, os.path.join(ws['base'], 'again', 'src'))
    src = os.path.join(ws['base'], 'again', 'src')
    how2 = rng.choice(['task', 'json', 'out'])
    out = ws['bin']
    if how2 == 'task':
        env.SchedulePool.seen = 0
        env.SchedulePool.fail_at = (rng.randint(1, 6), RuntimeError('injected'))
    elif how2 == 'json':
        js = sorted(f for f in P.read_dir(src) if f.endswith('.json'))
        P.write(os.path.join(src, rng.choice(js)), b'{')
    else:
        out = os.path.join(ws['base'], 'in', 'in.bin', 'x')  # a folder that is a file
    before = snapshot(src)
    err = call(obs, ws, env.v8unpack.build, src, out, temp, [], [out], tag=':fail-build')
    obs.count('failed_calls', err is not None)
    obs.check(not changed(before, snapshot(src)), 'sources-changed:fail', 'a failed build changed its sources')
    env.schedule('fifo')
    obs.sig(case['kind'], 'fail', how, how2, temp is None, case['i'])


def bad_path(rng, ws, ext=''):
    up = rng.randint(1, 5)
    return rng.choice(['../' * up + 'evil' + ext, '../' * up + 'evil' + ext, os.path.join(ws['base'], 'evil' + ext),
                       os.path.join(ws['base'], 'new' + ext), '..', '.', '', 'a/../../evil' + ext, '../evil' + ext,
                       './../' + 'evil' + ext, '../src2/evil' + ext, '../../l6/evil' + ext, 'x/y' + ext, '/',
                       'a/' + '../' * rng.randint(2, 7) + 'evil' + ext, 'x/./' + '../' * rng.randint(2, 7) + 'new' + ext])


def hostile_member(p, rng, ws):
    """a file of the container, or of a container in it"""
    name = bad_path(rng, ws)
    inner = [k for k, v in p.main.items() if isinstance(v, dict)]
    if inner and rng.random() < 0.4:
        k = rng.choice(sorted(inner))
        d = p.main[k]
        if rng.random() < 0.5 or not d:
            d[name] = b'\xef\xbb\xbfevil'
        else:
            old = rng.choice(sorted(d))
            d[name] = d.pop(old)
        return dict(inner=name)
    if rng.random() < 0.5:
        p.main[name] = b'\xef\xbb\xbfevil'
        return dict(added=name)
    old = rng.choice(sorted(k for k in p.main if k not in ('root', 'version', 'configinfo')))
    p.main[name] = p.main.pop(old)
    return dict(renamed=name)


def hostile_name(p, rng, ws):
    """the name of an object"""
    objs = mutate.objects(p)
    if not objs:
        return None
    o = rng.choice(sorted(objs.values(), key=lambda x: x.uuid))
    name = bad_path(rng, ws)

    def fn(h):
        h[2] = ('s', name)
    if not mutate.set_header(p, o.uuid, fn):
        return None
    return dict(type=o.type, name=name)


def hostile_area(p, rng, ws):
    m = mutate.modules(p)
    m = {k for k in m if not (mutate.is_old(p) or k[1] == 'module')}
    if not m:
        return None
    k, n = rng.choice(sorted(m))
    name = rng.choice([bad_path(rng, ws), bad_path(rng, ws), '_/evil', 'Общее_../../../evil', '___evil', 'a/b_evil'])
    documented = '/' not in name
    t = f'Перем А;\n#Область include_{name}\n// {rng.randrange(1000)}\n#КонецОбласти\n'
    p.main[k][n] = b'\xef\xbb\xbf' + t.encode()
    return dict(area=name, documented=documented)
