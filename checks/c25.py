"""C25: the command line and the product file do what the functions do, no more and no less."""
import contextlib
import io
import json
import os
import re
import subprocess
import sys

from vlib import env, mutate, product as P, rt
from vlib.core import case_rng

META = dict(
    level='exploration', timeout=240,
    budget=dict(quick=240, thorough=1800),
    rule='random command lines (-E -B -I -EA -BA -IA with every option, relative and absolute paths, options left '
         'out) and product files of several products (disabled, selected by code, failing, with own index, temporary '
         'folder and options) are run; the files they leave are compared with those of single calls of extract, build '
         'and update_index in a twin workspace, and so is the exit code; distinct = command lines',
    require={'commands': 120, 'batches': 40, 'contrasts': 10, 'selected': 10, 'disabled_untouched': 10, 'failed_commands': 20,
             'processes': 20, 'real_processes': 4, 'option:descent': 10, 'option:prefix': 10, 'option:version': 10,
             'option:auto_include': 10, 'option:index': 10, 'option:temp': 10},
    assumptions=[],
)
KINDS = ['epf803', 'epf802', 'erf', 'cfe', 'apam', 'cf16']


def cases(tier, seed):
    k = 1 if tier == 'quick' else 15
    i = 0
    for r in range(k):
        for n in range(80):
            yield dict(kind='single', seed=seed, i=i)
            i += 1
        for n in range(70):
            yield dict(kind='batch', seed=seed, i=i)
            i += 1
        for n in range(6):
            yield dict(kind='real', seed=seed, i=i)
            i += 1


def product(rng):
    kind = rng.choice(KINDS)
    p = rt.defuse(P.seed(kind))
    mutate.some(p, rng, rng.choice([0, 1, 2]))
    return kind, p.dump(None, 1)


def options(obs, rng):
    o = {}
    if rng.random() < 0.25:
        o['descent'] = rng.choice([3000075, 4100200, 8, 0])
    if rng.random() < 0.25:
        o['prefix'] = rng.choice(['x', 'Сбис_', ''])
    if rng.random() < 0.3:
        o['version'] = rng.choice(['80306', '80321'])
    if rng.random() < 0.25:
        o['auto_include'] = True
    for k in o:
        obs.count('option:' + k)
        if o[k] in (0, ''):
            obs.count('option-empty:' + k)
    return o


def main(args):
    """-> (exit code as the shell would see it, output)"""
    argv, out = sys.argv, io.StringIO()
    sys.argv = ['v8unpack'] + list(args)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                code = env.v8unpack.main()
            except SystemExit as e:
                code = e.code
    except Exception as e:
        return 1, f'{out.getvalue()} raised {e!r}'
    finally:
        sys.argv = argv
    return (0 if code is None else code), out.getvalue()


def silent(fn, *a, **k):
    try:
        fn(*a, **k)
    except Exception as e:
        return e
    return None


def norm_tree(root, skip=()):
    r = {}
    for f, d in P.read_dir(root).items():
        if any(f == s or f.startswith(s + os.sep) for s in skip):
            continue
        if re.search(r'\.(epf|erf|cfe|cf)$', f):
            continue
        # the temporary folder holds the numbers a build draws at random: which files there are is enough
        r[f] = d if 'code_stage_' not in f else b''
    return r


def compare(obs, got, want, bins, key, what):
    """two workspaces: equal files, equivalent binaries"""
    a, b = norm_tree(got), norm_tree(want)
    for f in sorted(set(a) | set(b)):
        obs.count('assertions')
        if a.get(f) != b.get(f):
            obs.violation(f'{key}:files', f'{what}: {f} ' + ('is missing' if f not in a else 'should not be there'
                                                              if f not in b else 'differs'))
            return
    for f in bins:
        x, y = os.path.join(got, f), os.path.join(want, f)
        obs.count('assertions')
        if os.path.exists(x) != os.path.exists(y):
            obs.violation(f'{key}:binary', f'{what}: {f} exists: {os.path.exists(x)}, expected: {os.path.exists(y)}')
            return
        if os.path.exists(x):
            rx, ry = open(x, 'rb').read(), open(y, 'rb').read()
            if rx != ry:
                for n, w in P.differences(P.parse_built(ry), P.parse_built(rx), ('versions',)):
                    obs.violation(f'{key}:binary', f'{what}: {f}: {n}: {w}')
                    return


def index_for(rng, raw, obs, name):
    plain = os.path.join(obs.tmp, '.plain', name)
    if silent(env.v8unpack.extract, P.write(os.path.join(obs.tmp, '.plain', name + '.bin'), raw), plain):
        return {}
    tree = sorted(P.read_dir(plain))
    index = {}
    for n, f in enumerate(rng.sample(tree, min(len(tree), 5))):
        cur = index
        *ds, b = f.split('/')
        for x in ds:
            cur = cur.setdefault(x, {})
        cur[b] = rng.choice([None, f'core/{n}/' + b, f'core/{n}/' + b])
    return index


def setup(ws, items):
    for f, d in items.items():
        P.write(os.path.join(ws, f), d)


def run(case, obs):
    rng = case_rng('C25', case['seed'], case['i'])
    env.schedule('fifo', log=True)
    env.load()
    {'single': single, 'batch': batch, 'real': real}[case['kind']](case, obs, rng)


def paths(rng, ws, *names):
    """paths as the user gives them, and the current folder"""
    cwd = rng.choice([ws, os.path.dirname(ws)])
    os.chdir(cwd)
    return [rng.choice([os.path.join(ws, n), os.path.relpath(os.path.join(ws, n))]) for n in names]


def single(case, obs, rng):
    kind, raw = product(rng)
    o = options(obs, rng)
    deep = 'r/conf/src' if 'descent' in o else 'r/src'
    ext = {'epf803': 'epf', 'epf802': 'epf', 'erf': 'erf', 'cfe': 'cfe'}.get(kind, 'cf')
    files = {f'in.{ext}': raw}
    index = None
    if rng.random() < 0.4:
        files['index.json'] = json.dumps(index_for(rng, raw, obs, 'p'), ensure_ascii=False).encode()
        index = 'index.json'
        obs.count('option:index')
    temp = None
    if rng.random() < 0.3:
        temp = 't/temp'
        obs.count('option:temp')
    procs = rng.choice([None, 1, 2, 3, 5])
    bad = rng.choice(['no-file', 'no-index', 'not-1c', 'no-src', 'bad-option']) if rng.random() < 0.3 else None
    a, b = os.path.join(obs.tmp, 'a', 'ws'), os.path.join(obs.tmp, 'b', 'ws')
    for ws in (a, b):
        setup(ws, files)
        if temp:
            os.makedirs(os.path.join(ws, temp))
    flags = []
    for k, v in o.items():
        flags += [f'--{k}'] if v is True else [f'--{k}', str(v)]
    kw = dict(options=dict(o))
    if index:
        kw['index'] = index
    if temp:
        kw['temp_dir'] = temp
    src_name, src_dir, out_name = f'in.{ext}', deep, f'out/o.{ext}'
    os.makedirs(os.path.join(a, 'out'))
    os.makedirs(os.path.join(b, 'out'))
    if bad == 'no-file':
        src_name = 'нет.cf'
    elif bad == 'no-index':
        kw['index'] = index = 'нет.json'
    elif bad == 'not-1c':
        for ws in (a, b):
            P.write(os.path.join(ws, src_name), b'not a container at all')
    steps = ['E', 'B', 'B'] if bad not in ('no-src',) else ['B']
    for n, step in enumerate(steps):
        if n == 2:  # the build through a changed set of options
            if rng.random() < 0.5:
                break
            o.pop('version', None)
            o.pop('prefix', None)
            if rng.random() < 0.5:
                o['version'] = '80314'
            flags = []
            for k, v in o.items():
                flags += [f'--{k}'] if v is True else [f'--{k}', str(v)]
            kw['options'] = dict(o)
        os.chdir(b)
        kw2 = dict(kw)
        for k in ('index', 'temp_dir'):
            if k in kw2:
                kw2[k] = os.path.join(b, kw2[k])
        if step == 'E':
            err = silent(env.v8unpack.extract, os.path.join(b, src_name), os.path.join(b, src_dir), **kw2)
        else:
            err = silent(env.v8unpack.build, os.path.join(b, src_dir), os.path.join(b, out_name), **kw2)
        p1, p2 = paths(rng, a, src_name, src_dir) if step == 'E' else paths(rng, a, src_dir, out_name)
        args = [f'-{step}', p1, p2] + flags
        if index:
            args += ['--index', os.path.relpath(os.path.join(a, index)) if rng.random() < 0.5 else os.path.join(a, index)]
        if temp:
            args += ['--temp', os.path.relpath(os.path.join(a, temp)) if rng.random() < 0.5 else os.path.join(a, temp)]
        if procs:
            args += ['--processes', str(procs)]
        if bad == 'bad-option':
            args += rng.choice([['--descent', '3.x'], ['--nosuch'], ['-EA', 'x.json'], ['--processes', 'two']])
        env.SchedulePool.log = []
        code, out = main(args)
        obs.count('commands')
        what = ' '.join(args).replace(obs.tmp, '')
        if bad == 'bad-option':
            obs.check(code not in (0, None), 'bad-command-accepted', f'{what}: exit code {code}')
            obs.check(not os.path.exists(os.path.join(a, src_dir)), 'bad-command-writes', f'{what} wrote something')
            obs.count('failed_commands')
            return
        pools = [x[1] for x in env.SchedulePool.log if x[0] == 'pool']
        if procs and not err:
            obs.count('processes')
            obs.check(all(x == procs for x in pools), 'processes', f'{what}: workers asked for: {pools}')
        if err is not None:
            obs.count('failed_commands')
        if (code != 0) != (err is not None):
            obs.violation('exit-code', f'{what}: exit code {code}, the call: {P.err_text(err) if err else "succeeds"}; '
                                       f'{out[-300:]}')
            return
        if err is not None:
            break
        compare(obs, a, b, [f'out/o.{ext}'], 'command', what)
        if obs.violations:
            return
    obs.sig('single', kind, tuple(flags), bool(index), bool(temp), procs, bad)
    obs.sample(dict(product=kind, flags=flags, index=index, temp=temp, processes=procs, bad=bad))


def batch(case, obs, rng):
    obs.count('batches')
    n = rng.randint(1, 4)
    # products with everything set next to products with nothing set, all of them done in one go
    contrast = rng.random() < 0.3
    if contrast:
        n = max(n, 2)
    first_full = rng.random() < 0.7
    a, b = os.path.join(obs.tmp, 'a', 'ws'), os.path.join(obs.tmp, 'b', 'ws')
    relative = rng.random() < 0.5
    conf, raws, files = {}, {}, {}
    for j in range(n):
        kind, raw = product(rng)
        code = rng.choice(['saby_vo', 'прод укт', 'p']) + str(j)
        o = options(obs, rng)
        everything = contrast and (j % 2 == 0) == first_full
        if everything:
            for k, v in dict(prefix='Сбис_', version='80306', auto_include=True).items():
                if rng.random() < 0.8:
                    o[k] = v
        if rng.random() < 0.3:
            o['descent'] = o.get('descent')
        deep = 'conf/src' if o.get('descent') is not None else 'src'
        par = dict(src=f's{j}/{deep}', bin=f'bin/{code}.epf')
        if everything if contrast else rng.random() < 0.5:
            par['options'] = o
        elif rng.random() < 0.5:
            par['options'] = {}
        if 'options' in par and rng.random() < 0.2:
            par['options'] = dict(par['options'], product='другой')  # the code of the product wins
        if 'options' not in par or par['options'].get('descent') is None:
            par['src'] = f's{j}/src'
        if rng.random() < 0.4:
            par['temp'] = f't{j}/temp' if rng.random() < 0.7 else 't/temp'
            files[os.path.join(par['temp'], 'old.txt')] = b'old'
        if rng.random() < 0.4:
            par['index'] = f'i{j}.json'
            files[par['index']] = json.dumps(index_for(rng, raw, obs, f'p{j}'), ensure_ascii=False).encode()
        k = rng.random()
        if k < 0.35 and not contrast:
            par['disable'] = True
        elif k < 0.6:
            par['disable'] = rng.choice([False, None])
        files[par['bin']] = raw
        conf[code] = par
    broken = None
    if rng.random() < 0.25 and not contrast:
        broken = rng.choice(sorted(conf))
        files[conf[broken]['bin']] = b'junk'
    for ws in (a, b):
        setup(ws, files)
    full = lambda ws, par: {k: (os.path.join(ws, v) if k in ('src', 'bin', 'temp', 'index') and v else v)
                            for k, v in par.items()}
    text = json.dumps({c: (par if relative else full(a, par)) for c, par in conf.items()}, ensure_ascii=False)
    pfile = P.write(os.path.join(obs.tmp, 'a', 'product.json'), text.encode())
    code = None
    k = rng.random()
    if contrast:
        obs.count('contrasts')
    elif k < 0.4:
        code = rng.choice(sorted(conf))
        obs.count('selected')
    elif k < 0.5:
        code = 'нет такого'
    chosen = [c for c in conf if (c == code if code else not conf[c].get('disable'))]
    if any(conf[c].get('disable') for c in conf if c not in chosen):
        obs.count('disabled_untouched')
    dest = rng.choice([None, 'core'])
    for step in ('E', 'B', 'I'):
        # the twin: one call for each product
        os.chdir(b)
        err = KeyError(code) if code and code not in conf else None
        for c in chosen:
            par = full(b, conf[c])
            if step == 'E':
                err = silent(env.v8unpack.extract, par['bin'], par['src'], temp_dir=par.get('temp'),
                             index=par.get('index'), options=dict(par.get('options', {})))
            elif step == 'B':
                err = silent(env.v8unpack.build, par['src'], par['bin'], temp_dir=par.get('temp'),
                             index=par.get('index'), options=dict(par.get('options', {}), product=c))
            else:
                err = silent(env.v8unpack.update_index, par['src'], par.get('index'), dest)
            if err is not None:
                break
        before = text
        os.chdir(a if relative else rng.choice([a, '/']))
        pf = os.path.relpath(pfile) if rng.random() < 0.5 else pfile
        if rng.random() < 0.5:
            args = [f'-{step}A', pf] + (['--index', code] if code else [])
            if step == 'I' and dest:
                args += ['--core', dest]
            procs = rng.choice([None, 2, 3, 5]) if step != 'I' else None
            if procs:
                args += ['--processes', str(procs)]
            env.SchedulePool.log = []
            what = ' '.join(args).replace(obs.tmp, '')
            rc, out = main(args)
            obs.count('commands')
            failed = rc != 0
            pools = [x[1] for x in env.SchedulePool.log if x[0] == 'pool']
            if procs and not failed:
                obs.count('processes')
                obs.check(all(x == procs for x in pools), 'processes', f'{what}: workers asked for: {pools}')
        else:
            fn = {'E': env.v8unpack.extract_all, 'B': env.v8unpack.build_all, 'I': env.v8unpack.update_index_all}[step]
            args = (pf, code) if code else (pf,)
            kw = dict(dest_dir=dest) if step == 'I' else {}
            what = f'{fn.__name__}{args}'.replace(obs.tmp, '')
            e = silent(fn, *args, **kw)
            failed, out = e is not None, P.err_text(e) if e is not None else ''
        obs.check(open(pfile, 'rb').read().decode() == before, 'product-file-changed', f'{what} changed the product file')
        if failed:
            obs.count('failed_commands')
        if failed != (err is not None):
            obs.violation('batch-result', f'{what}: fails: {failed}, the calls: '
                                          f'{P.err_text(err) if err is not None else "succeed"} {out[-400:]}')
            return
        compare(obs, a, b, [par['bin'] for par in conf.values()], 'batch', what + f' of {json.dumps(conf)[:400]}')
        if obs.violations:
            return
        if err is not None:
            break
    obs.sig('batch', text.replace(obs.tmp, ''), code)
    obs.sample(dict(products=len(conf), selected=code, broken=broken))


def real(case, obs, rng):
    """a few real processes: the exit code the shell sees, with real workers"""
    kind = rng.choice(['epf803', 'erf', 'apam'])
    raw = P.seed(kind)
    rt.defuse(raw)
    raw = raw.dump(None, 1)
    P.write(os.path.join(obs.tmp, 'in.bin'), raw)
    e = dict(os.environ, PYTHONPATH=env.SRC, TQDM_DISABLE='1', PYTHONDONTWRITEBYTECODE='1')

    def cmd(*args):
        obs.count('real_processes')
        obs.count('commands')
        r = subprocess.run([sys.executable, '-m', 'v8unpack', *args], cwd=obs.tmp, env=e, capture_output=True,
                           timeout=100)
        return r.returncode, (r.stdout + r.stderr).decode('utf-8', 'replace')

    rc, out = cmd('-E', 'in.bin', 'ws/src', '--processes', str(rng.randint(1, 4)))
    obs.check(rc == 0, 'shell-extract', f'exit code {rc}: {out[-300:]}')
    rc, out = cmd('-B', 'ws/src', 'out.bin')
    obs.check(rc == 0, 'shell-build', f'exit code {rc}: {out[-300:]}')
    if not obs.violations:
        got = P.parse_built(open(os.path.join(obs.tmp, 'out.bin'), 'rb').read())
        for f, what in P.differences(P.parse(raw), got, ('versions',)):
            obs.violation('shell-product', f'{f}: {what}')
    # failures
    how = rng.choice(['json', 'missing', 'input'])
    tree = sorted(f for f in P.read_dir(os.path.join(obs.tmp, 'ws', 'src')) if f.endswith('.json'))
    if how == 'json':
        P.write(os.path.join(obs.tmp, 'ws', 'src', rng.choice(tree)), b'{')
        rc, out = cmd('-B', 'ws/src', 'out2.bin')
    elif how == 'missing':
        rc, out = cmd('-B', 'ws/нет', 'out2.bin')
    else:
        P.write(os.path.join(obs.tmp, 'bad.bin'), raw[:len(raw) // 2])
        rc, out = cmd('-E', 'bad.bin', 'ws2/src')
    obs.count('failed_commands')
    obs.check(rc != 0, f'shell-failure:{how}', f'{how}: exit code {rc}: {out[-300:]}')
    obs.sig('real', kind, how)
