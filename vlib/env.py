"""Loads the code under test from /repo's working tree and gives the workloads a handle on it."""
import io
import multiprocessing
import os
import pickle
import random
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

_real_pool = multiprocessing.Pool
_real_ctx_pool = multiprocessing.get_context().Pool


class SchedulePool:
    """Stand-in for multiprocessing.Pool: tasks run in this process, in an order and with a completion order that the
    case chooses; arguments and results cross a pickle boundary as they would between processes."""

    plan = None      # dict(mode=..., seed=...)
    log = None       # list of (pool_call, order) for the schedule monitor
    fail_at = None   # (n-th task overall, exception)
    seen = 0

    def __init__(self, processes=None, *a, **k):
        self.processes = processes
        cls = type(self)
        if cls.log is not None:
            cls.log.append(('pool', processes))

    def _order(self, n):
        plan = type(self).plan or {'mode': 'fifo'}
        idx = list(range(n))
        mode = plan['mode']
        if mode == 'lifo':
            idx.reverse()
        elif mode == 'shuffle':
            plan['rng'].shuffle(idx)
        elif mode == 'window':  # bounded overtaking, like k workers with random task times
            k = max(1, plan.get('workers', 3))
            rng = plan['rng']
            out, win, nxt = [], [], 0
            while len(out) < n:
                while nxt < n and len(win) < k:
                    win.append(nxt)
                    nxt += 1
                out.append(win.pop(rng.randrange(len(win))))
            idx = out
        return idx

    def _run(self, func, args):
        func2, args2 = pickle.loads(pickle.dumps((func, args)))
        cls = type(self)
        cls.seen += 1
        if cls.fail_at is not None and cls.seen == cls.fail_at[0]:
            raise cls.fail_at[1]
        return pickle.loads(pickle.dumps(func2(args2)))

    def imap_unordered(self, func, iterable, chunksize=1):
        items = list(iterable)
        order = self._order(len(items))
        if type(self).log is not None and len(items) > 1:
            type(self).log.append((getattr(func, '__qualname__', repr(func)), tuple(order)))
        for i in order:
            yield self._run(func, items[i])

    def imap(self, func, iterable, chunksize=1):
        items = list(iterable)
        order = self._order(len(items))
        if type(self).log is not None and len(items) > 1:
            type(self).log.append((getattr(func, '__qualname__', repr(func)), tuple(order)))
        res = {}
        for i in order:
            res[i] = self._run(func, items[i])
        for i in range(len(items)):
            yield res[i]

    def map(self, func, iterable, chunksize=None):
        return list(self.imap(func, iterable))

    def starmap(self, func, iterable, chunksize=None):
        return [self._run_star(func, a) for a in iterable]

    def _run_star(self, func, a):
        f, a = pickle.loads(pickle.dumps((func, a)))
        return pickle.loads(pickle.dumps(f(*a)))

    def apply(self, func, args=(), kwds=None):
        f, a, k = pickle.loads(pickle.dumps((func, args, kwds or {})))
        return pickle.loads(pickle.dumps(f(*a, **k)))

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        class R:
            def __init__(self, v, e):
                self.v, self.e = v, e

            def get(self, timeout=None):
                if self.e is not None:
                    raise self.e
                return self.v

            def wait(self, timeout=None):
                pass

            def ready(self):
                return True

            def successful(self):
                return self.e is None

        try:
            r = R(self.apply(func, args, kwds), None)
            if callback:
                callback(r.v)
        except Exception as e:
            r = R(None, e)
            if error_callback:
                error_callback(e)
        return r

    def close(self):
        pass

    def join(self):
        pass

    def terminate(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def _pool_factory(*a, **k):
    if use_real_pool:
        return _real_pool(*a, **k)
    return SchedulePool(*a, **k)


class _PoolMeta(type):
    def __call__(cls, *a, **k):
        return _pool_factory(*a, **k)


class PoolFacade(metaclass=_PoolMeta):
    """What the code under test gets for multiprocessing.Pool (usable as an annotation too)."""


use_real_pool = False
mods = {}


def load():
    """Import every module of the code under test (with the pool stand-in in place)."""
    if mods:
        return mods
    os.environ['TQDM_DISABLE'] = '1'
    sys.dont_write_bytecode = True
    sys.path.insert(0, SRC)
    multiprocessing.Pool = PoolFacade
    import importlib
    import warnings
    warnings.simplefilter('ignore')
    out = io.StringIO()
    for name in ['v8unpack.v8unpack', 'v8unpack.helper', 'v8unpack.container_reader', 'v8unpack.container_writer',
                 'v8unpack.organizer_file', 'v8unpack.organizer_file_ce', 'v8unpack.organizer_code',
                 'v8unpack.organizer_form_elem', 'v8unpack.index', 'v8unpack.decoder', 'v8unpack.metadata_types',
                 'v8unpack.json_container_decoder', 'v8unpack.ext_exception', 'v8unpack.version']:
        mods[name.split('.')[-1]] = importlib.import_module(name)
    got = os.path.realpath(mods['v8unpack'].__file__)
    if not got.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError(f'imported {got}, not the working tree {SRC}')
    # metadata classes are imported lazily by the code; import them once here so forked cases share them
    root = os.path.join(SRC, 'v8unpack')
    for dp, dn, fn in os.walk(root):
        for f in fn:
            if f.endswith('.py') and f != '__main__.py':
                rel = os.path.relpath(os.path.join(dp, f), SRC)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-9]
                if 'unittest_helper' in rel or '__main__' in rel:
                    continue
                try:
                    importlib.import_module(rel)
                except Exception:
                    pass
    return mods


def schedule(mode='fifo', seed=0, workers=3, log=False):
    SchedulePool.plan = dict(mode=mode, rng=random.Random(seed), workers=workers)
    SchedulePool.log = [] if log else None
    SchedulePool.seen = 0
    SchedulePool.fail_at = None


def V():
    return load()['v8unpack']


def H():
    return load()['helper']


def __getattr__(name):
    return load()[name]
