"""C32: runs do not influence each other."""
import copy
import gc
import json
import locale
import multiprocessing
import os
import pickle
import re
import shutil
import signal
import sys
import tempfile
import traceback

from vlib import env, mutate, product as P, rt
from vlib.core import Violation, case_rng
from checks import c16
from checks.c07 import compare

META = dict(
    level='exploration', timeout=240,
    budget=dict(quick=170, thorough=1800),
    rule='jobs (extract, edit, build, extract with an index, update of an index; of different products with '
         'different options, some bound to fail, some that differ only in the contents of files of the same names '
         'and sizes) are run each in a process of its own, then many in a row in one process, in the same folders '
         'and with the option dictionaries reused, and then at the same time in several processes which share the '
         'folder of temporary files, the working folder and the folder they write to, some of them building the '
         'same sources; every job must give the sources, product, index or failure it gives alone, and leave the '
         'state of the process (working folder, environment, open files, children) as it was; distinct = sequences',
    require={'alone': 80, 'in_a_row': 200, 'states': 200, 'at_once': 150, 'same_sources': 30, 'failures_before': 25,
             'distinct': 20, 'real_pools': 6},
    assumptions=['runs that write to the same file or folder at the same time are not judged'],
)
KINDS = ['erf', 'epf803', 'epf803', 'epf802', 'cfe', 'cfe', 'apamold', 'apam', 'cf16']


def cases(tier, seed):
    for i in range(24 if tier == 'quick' else 300):
        yield dict(seed=seed, i=i, real=i % 4 == 3)


class Job:
    def __init__(self, rng, n, kinds):
        self.n, self.kind = n, rng.choice(kinds)
        p = rt.defuse(P.seed(self.kind))
        mutate.some(p, rng, rng.choice([0, 2, 4]))
        self.raw = p.dump(mutate.random_layout(rng), 1)
        self.options = {}
        if rng.random() < 0.4:
            self.options['auto_include'] = True
        if rng.random() < 0.3:
            self.options['prefix'] = rng.choice(['Пр', 'X_'])
        if rng.random() < 0.3 and self.kind in ('cfe', 'cf16'):
            self.options['version'] = rng.choice(['80306', '80310', '80314'])
        self.text = f'\n// правка {rng.randrange(1000):03}\n'.encode()  # of one length
        self.at = rng.random()
        self.index = None if rng.random() < 0.5 else rng.random()
        self.core = f'core{rng.randrange(3)}'
        self.area = None
        if rng.random() < 0.6:
            self.text += f'#Область include_{self.core}_Код\n#КонецОбласти\n'.encode()
            self.area = f'// область {rng.randrange(1000):03}\n'.encode()
        self.fail = rng.choice([None, None, None, 'raw', 'source'])

    def twin(self, rng):
        """a job whose files differ from those of this one and have the same names and sizes"""
        self.fail, self.index = None, self.index or rng.random()
        t = copy.copy(self)
        t.options = dict(self.options)
        t.core = f'core{3 + rng.randrange(5)}'
        t.text = self.text.replace('правка '.encode(), 'отрава '.encode()).replace(self.core.encode(), t.core.encode())
        t.area = self.area and self.area.replace('область'.encode(), 'участок'.encode())
        return t

    def name(self):
        return f'{self.kind} {self.options}{" with an index" * bool(self.index)}{" failing" * bool(self.fail)}'

    def run(self, ws, out=None):
        """-> {part: result}; the options of the job are handed over as they are"""
        V, got = env.v8unpack, {}
        raw, src = P.write(os.path.join(ws, 'in.bin'), self.raw), os.path.join(ws, 'w', 'src')
        out = out or os.path.join(ws, 'out.bin')
        for x in os.listdir(os.path.join(ws, 'w')) if os.path.isdir(os.path.join(ws, 'w')) else ():
            if x != 'src':  # that one is the extraction's to clear
                shutil.rmtree(os.path.join(ws, 'w', x))
        try:
            if self.fail == 'raw':
                P.write(raw, self.raw[:len(self.raw) // 3])
            V.extract(raw, src, options=self.options)
            got['sources'] = P.read_dir(os.path.join(ws, 'w'))
            names = sorted(got['sources'])
            mods = [f for f in names if f.endswith('.bsl')]
            if mods:
                f = mods[int(self.at * len(mods))]
                P.write(os.path.join(ws, 'w', f), got['sources'][f] + self.text)
                if self.area:  # part of the module lives in a file of its own
                    P.write(os.path.join(ws, 'w', self.core, 'Код.bsl'), self.area)
            if self.fail == 'source':
                os.remove(os.path.join(src, sorted(f for f in os.listdir(src) if f.endswith('.json'))[0]))
            V.build(src, out, options=self.options)
            with open(out, 'rb') as f:
                got['product'] = f.read()
            if self.area:
                V.extract(out, os.path.join(ws, 'v', 'src'), options=self.options)
                # without the description of the root: that of extensions has hashes, of random ids too
                got['again'] = {f: d for f, d in P.read_dir(os.path.join(ws, 'v')).items()
                                if f.count('/') != 1 or not f.endswith('.json')}
                shutil.rmtree(os.path.join(ws, 'v'))
            os.remove(out)
            idx = os.path.join(ws, 'index.json')
            if os.path.exists(idx):
                os.remove(idx)
            V.update_index(src, idx, self.core)
            with open(idx, encoding='utf-8') as f:
                got['index'] = json.load(f)
            if self.index is not None:
                f = names[int(self.index * len(names))].split('/')[1:]
                d = f'{self.core}/{f[-1]}'
                for part in reversed(f):
                    d = {part: d}
                with open(idx, 'w', encoding='utf-8') as h:
                    json.dump(d, h)
                V.extract(raw, src, options=self.options, index=idx)
                got['indexed'] = P.read_dir(os.path.join(ws, 'w'))
                V.build(src, out, options=self.options, index=idx)
                with open(out, 'rb') as f:
                    got['product2'] = f.read()
                os.remove(out)
        except Exception as e:
            got['failure'] = type(e).__name__ + ' ' + str(getattr(e, 'message', ''))
        return got


def state():
    """what a run could leave behind in the process for the next one"""
    gc.collect()
    m = os.umask(0o22)
    os.umask(m)
    fds = []
    for f in os.listdir('/proc/self/fd'):
        try:
            fds.append(re.sub(r'\d{4,}', '#', os.readlink(f'/proc/self/fd/{f}')))
        except OSError:  # that of the listing itself
            pass
    try:
        folder = os.getcwd()
    except FileNotFoundError:
        folder = None
    return dict(folder=folder, umask=m, environment=dict(os.environ), locale=locale.setlocale(locale.LC_ALL),
                temporary=tempfile.gettempdir(), output=id(sys.stdout),
                files=sorted(x for x in fds if not x.startswith(('pipe:', 'anon_inode:', 'socket:'))),
                children=len(multiprocessing.active_children()), hooks=(id(os.listdir), id(open)),
                alarms=signal.getitimer(signal.ITIMER_REAL)[0] > 0)


def start(fn):
    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        code = 1
        try:
            os.close(r)
            try:
                res = fn()
            except BaseException:
                res = traceback.format_exc()
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def finish(h):
    pid, r = h
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    res = pickle.loads(data)
    if isinstance(res, str):
        raise RuntimeError(res)
    return res


def judge(obs, job, a, b, how):
    what = f'({job.name()}) {how}'
    if a.get('failure') != b.get('failure'):
        obs.violation(f'outcome:{how}', f'job {what}: {b.get("failure") or "succeeds"}, alone: '
                                        f'{a.get("failure") or "succeeds"}')
        return
    for part in ('sources', 'indexed', 'again'):
        if part in a:
            compare(obs, a[part], b[part], f'{part}:{how}', what)
    for part in ('product', 'product2'):
        if part in a:
            c16.built(obs, P.parse_built(a[part]), P.parse_built(b[part]), what)
    obs.check(a.get('index') == b.get('index'), f'index:{how}', f'another index, job {what}')


def run(case, obs):
    rng = case_rng('C32', case['seed'], case['i'])
    kinds = rng.sample(KINDS, 3)
    jobs = [Job(rng, n, kinds) for n in range(4)]
    jobs.append(jobs[0].twin(rng))
    before = [json.dumps(j.options) for j in jobs]
    env.schedule('fifo', 0, 2)
    alone = []
    for n, j in enumerate(jobs):
        alone.append(finish(start(lambda: j.run(os.path.join(obs.tmp, f'alone{n}')))))
        obs.count('alone')
        shutil.rmtree(os.path.join(obs.tmp, f'alone{n}'))
        if not j.fail and 'failure' in alone[-1]:
            raise Violation('fails-alone', f'{j.name()}: {alone[-1]["failure"]}')
    env.use_real_pool = case['real']
    try:
        # in a row, in one process and one place
        ws = os.path.join(obs.tmp, 'ws')
        order = [rng.randrange(len(jobs)) for _ in range(7)]
        for n in range(len(jobs)):  # each at least once after another
            order.insert(rng.randrange(1, len(order)), n)
        order += rng.sample([0, len(jobs) - 1], 2)
        failed = False
        os.chdir(obs.tmp)
        for n in order:
            left = state()
            got = jobs[n].run(ws)
            now = state()
            for x in left:
                obs.check(left[x] == now[x], f'left-behind:{x}', f'job ({jobs[n].name()}) left {x} {str(now[x])[-300:]}, '
                                                                f'it was {str(left[x])[-300:]}')
            obs.count('states')
            os.chdir(obs.tmp)
            judge(obs, jobs[n], alone[n], got, 'in-a-row')
            obs.count('in_a_row')
            obs.count('failures_before', int(failed))
            failed = failed or 'failure' in got
            if rng.random() < 0.5:
                shutil.rmtree(ws)
        for j, o in zip(jobs, before):
            obs.check(json.dumps(j.options) == o, 'options-changed', f'the options handed over became {j.options}')
        obs.sig(str(order), *[j.name() for j in jobs])
        # at once: other processes, one folder for the results
        for rep in range(2):
            os.makedirs(os.path.join(obs.tmp, 'out'), exist_ok=True)
            todo = [(n, start(lambda n=n, k=k: jobs[n].run(os.path.join(obs.tmp, f'p{rep}{k}'),
                                                          os.path.join(obs.tmp, 'out', f'{k}.bin'))))
                    for k, n in enumerate(list(range(len(jobs))) * (1 if case['real'] else 2))]
            for n, h in todo:
                judge(obs, jobs[n], alone[n], finish(h), 'at-once')
                obs.count('at_once')
                if case['real']:
                    obs.count('real_pools')
        together(obs, rng, jobs)
    finally:
        env.use_real_pool = False
    obs.sample(dict(jobs=[j.name() for j in jobs], order=order))


def together(obs, rng, jobs):
    """several builds of the same sources and extractions of the same binary at once"""
    good = [j for j in jobs if not j.fail]
    if not good:
        return
    j = rng.choice(good)
    src, raw = os.path.join(obs.tmp, 't', 'src'), P.write(os.path.join(obs.tmp, 't.bin'), j.raw)
    env.v8unpack.extract(raw, src, options=j.options)
    tree = P.read_dir(src)

    def once(k):
        out = os.path.join(obs.tmp, 'out', f't{k}.bin')
        env.v8unpack.build(src, out, options=j.options)
        with open(out, 'rb') as f:
            data = f.read()
        d = os.path.join(obs.tmp, 'again', str(k))
        env.v8unpack.extract(raw, d, options=j.options)
        return data, P.read_dir(d)

    a = finish(start(lambda: once('first')))
    for data, t in [finish(h) for h in [start(lambda k=k: once(k)) for k in range(4)]]:
        c16.built(obs, P.parse_built(a[0]), P.parse_built(data), 'while others build the same sources')
        compare(obs, tree, t, 'same-binary', 'while others extract the same binary')
        obs.count('same_sources')
    compare(obs, tree, P.read_dir(src), 'sources-changed', 'after several builds at once')
