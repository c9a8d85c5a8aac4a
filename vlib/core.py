"""Driver: runs the cases of one property, each in its own forked process and scratch directory, collects what the
monitors saw, writes the evidence file and prints the verdict."""
import argparse
import hashlib
import importlib
import json
import locale
import os
import pickle
import random
import re
import resource
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))


class Violation(Exception):
    def __init__(self, key, message, detail=None):
        super().__init__(f'{key}: {message}')
        self.key = key
        self.message = message
        self.detail = detail


class Obs:
    """What the monitors observed while one case ran."""

    def __init__(self, tmp):
        self.tmp = tmp
        self.counts = {}
        self.sigs = set()
        self.violations = []
        self.samples = []
        self.notes = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sig(self, *parts):
        """A distinct non-trivial observation (hashed)."""
        self.sigs.add(hashlib.sha1(repr(parts).encode()).hexdigest()[:16])

    def sample(self, data):
        if len(self.samples) < 2:
            self.samples.append(data)

    def violation(self, key, message, detail=None):
        if len(self.violations) < 20:
            self.violations.append(dict(key=key, message=str(message)[:3000], detail=_short(detail)))

    def check(self, cond, key, message, detail=None):
        self.count('assertions')
        if not cond:
            self.violation(key, message() if callable(message) else message, detail)
        return bool(cond)

    def dir(self, name):
        p = os.path.join(self.tmp, name)
        os.makedirs(p, exist_ok=True)
        return p


def _short(x, n=4000):
    try:
        s = json.dumps(x, ensure_ascii=False, default=repr)
    except Exception:
        s = repr(x)
    return x if len(s) <= n else s[:n] + '...'


def case_rng(prop, seed, index):
    return random.Random(f'{prop}/{seed}/{index}')


def _child(mod, case, tmp, wfd):
    code = 0
    try:
        os.setpgid(0, 0)
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 30, 1 << 30))
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        devnull = os.open(os.devnull, os.O_RDWR)
        if not os.environ.get('VERIF_DEBUG'):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        os.dup2(devnull, 0)
        os.chdir(tmp)
        tempfile.tempdir = os.path.join(tmp, '.sys')
        os.makedirs(tempfile.tempdir, exist_ok=True)
        os.environ['TMPDIR'] = tempfile.tempdir
        obs = Obs(tmp)
        res = dict(ok=True)
        from . import cov, env
        cov.start(env.SRC)
        # the encoding the system takes by default must not matter: in half of the cases it is ASCII
        if zlib.crc32(repr(sorted(case.items())).encode()) & 1:
            locale.setlocale(locale.LC_CTYPE, 'C')
            obs.count('ascii_locale')
        else:
            obs.count('utf8_locale')
        try:
            mod.run(case, obs)
        except Violation as v:
            obs.violation(v.key, v.message, v.detail)
        except BaseException as e:  # harness trouble, reported as such
            res = dict(ok=False, error=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:])
        res.update(counts=obs.counts, sigs=obs.sigs, violations=obs.violations, samples=obs.samples, notes=obs.notes,
                   lines=cov.hits())
        data = pickle.dumps(res)
        with os.fdopen(wfd, 'wb') as f:
            f.write(data)
    except BaseException:
        traceback.print_exc()
        code = 99
    finally:
        os._exit(code)


MAX_KEYS = int(os.environ.get('VERIF_MAXKEYS') or 12)


class Runner:
    def __init__(self, mod, prop, scratch, timeout):
        self.mod, self.prop, self.scratch, self.timeout = mod, prop, scratch, timeout
        self.live = {}

    def start(self, n, case):
        tmp = os.path.join(self.scratch, f'c{n}')
        os.makedirs(tmp)
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            _child(self.mod, case, tmp, w)
        os.close(w)
        os.set_blocking(r, False)
        t = case.get('timeout', self.timeout)
        self.live[r] = dict(pid=pid, n=n, case=case, tmp=tmp, buf=bytearray(), deadline=time.monotonic() + t, t=t)

    def poll(self):
        """-> list of finished (n, case, result)"""
        done = []
        ready, _, _ = select.select(list(self.live), [], [], 0.2)
        for r in ready:
            s = self.live[r]
            while True:
                try:
                    b = os.read(r, 1 << 20)
                except BlockingIOError:
                    break
                if not b:
                    done.append(self._finish(r))
                    break
                s['buf'] += b
        now = time.monotonic()
        for r in list(self.live):
            if self.live[r]['deadline'] < now:
                done.append(self._finish(r, timed_out=True))
        return done

    def _finish(self, r, timed_out=False):
        s = self.live.pop(r)
        os.close(r)
        for sig in ([signal.SIGKILL]):
            try:
                os.killpg(s['pid'], sig)
            except (ProcessLookupError, PermissionError):
                try:
                    os.kill(s['pid'], sig)
                except ProcessLookupError:
                    pass
        try:
            os.waitpid(s['pid'], 0)
        except ChildProcessError:
            pass
        shutil.rmtree(s['tmp'], ignore_errors=True)
        if timed_out:
            return s['n'], s['case'], dict(ok=False, timeout=s['t'])
        try:
            return s['n'], s['case'], pickle.loads(bytes(s['buf']))
        except Exception as e:
            return s['n'], s['case'], dict(ok=False, error=f'case process died without a report ({e!r})')


def load_known(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(path, encoding='utf-8') as f:
            return [x for x in json.load(f)['findings'] if x['property'] == prop and x.get('status') == 'open']
    except FileNotFoundError:
        return []


def write_replay(prop, tier, seed, case, viol):
    d = os.path.join(VERIF, 'replay', prop)
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1((prop + viol['key']).encode()).hexdigest()[:12]
    p = os.path.join(d, f'{h}.json')
    with open(p, 'w', encoding='utf-8') as f:
        json.dump(dict(property=prop, tier=tier, seed=seed, case=case, violation=viol,
                       rerun=f'/opt/venv/bin/python /verif/check.py {prop} --replay {p}'), f, ensure_ascii=False,
                  indent=1, default=repr)
    return p


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--case', type=int)
    ap.add_argument('--first', type=int, help='run only the first N cases')
    args = ap.parse_args(argv)
    prop = args.property
    t0 = time.time()
    os.environ.setdefault('LC_ALL', 'C.UTF-8')
    mod = importlib.import_module(f'checks.{prop.lower()}')
    try:
        from . import env
        env.load()
    except Exception as e:
        print(f'the code under test cannot be imported: {e!r}')
        traceback.print_exc()
        return 2
    meta = mod.META
    if args.replay:
        with open(args.replay, encoding='utf-8') as f:
            cases = [json.load(f)['case']]
    else:
        cases = list(mod.cases(args.tier, args.seed))
    if args.case is not None:
        cases = [cases[args.case]]
    if args.first:
        cases = cases[:args.first]
    budget = float(os.environ.get('VERIF_BUDGET') or meta.get('budget', {}).get(
        args.tier, 240 if args.tier == 'quick' else 3000))
    scratch = tempfile.mkdtemp(prefix=f'v8v-{prop}-', dir=os.environ.get('VERIF_TMP') or None)
    known = load_known(prop)
    counts, sigs, samples, notes = {}, set(), [], {}
    lines = set()
    viols, errors, timeouts = {}, [], 0
    ran = 0
    try:
        run = Runner(mod, prop, scratch, meta.get('timeout', 60))
        it = iter(enumerate(cases))
        exhausted = False
        truncated = False
        while not exhausted or run.live:
            while not exhausted and len(run.live) < JOBS:
                if time.time() - t0 > budget or sum(not any(re.fullmatch(x['match'], v) for x in known) for v in viols) >= MAX_KEYS or len(errors) >= 5:
                    exhausted = truncated = True
                    break
                try:
                    n, case = next(it)
                except StopIteration:
                    exhausted = True
                    break
                run.start(n, case)
            if not run.live:
                continue
            for n, case, res in run.poll():
                ran += 1
                if res.get('timeout'):
                    timeouts += 1
                    key = f'hang/{case.get("kind", "case")}'
                    viols.setdefault(key, []).append((case, dict(
                        key=key, message=f'no answer within {res["timeout"]} s', detail=None)))
                    continue
                if not res['ok']:
                    errors.append((case, res['error']))
                for k, v in res.get('counts', {}).items():
                    counts[k] = counts.get(k, 0) + v
                sigs |= res.get('sigs', set())
                lines |= res.get('lines', set())
                for k, v in res.get('notes', {}).items():
                    notes.setdefault(k, v)
                if len(samples) < 4:
                    for s in res.get('samples', []):
                        samples.append(s)
                for v in res.get('violations', []):
                    viols.setdefault(v['key'], []).append((case, v))
    finally:
        for r in list(run.live):
            run._finish(r)
        shutil.rmtree(scratch, ignore_errors=True)

    kf, real = [], {}
    for key, lst in viols.items():
        m = [k for k in known if re.fullmatch(k['match'], key)]
        if m:
            kf.append((m[0], lst))
        else:
            real[key] = lst
    # a known finding is reported from its own recorded witness, so that its line appears on every run
    for k in known:
        print(f'KNOWN-FINDING: property={prop} {k["what"]}')

    rule = meta['rule']
    coverage = dict(evaluations=ran, distinct_nontrivial=len(sigs), rule=rule,
                    samples=[_short(s, 1500) for s in samples[:4]] or [_short(c, 800) for c in cases[:2]],
                    observed=dict(sorted(counts.items())), cases_planned=len(cases), budget_truncated=truncated,
                    harness_errors=len(errors), timeouts=timeouts)
    from . import cov
    total = {f: len(l) for f, l in cov.executable(env.SRC).items()}
    coverage['lines_reached'] = dict(
        total=f'{len(lines)} of {sum(total.values())} lines inside functions',
        by_file={f: f'{sum(1 for g, _ in lines if g == f)} of {total.get(f, 0)}' for f in sorted({g for g, _ in lines})})
    if os.environ.get('VERIF_COV'):
        with open(os.path.join(os.environ['VERIF_COV'], prop + '.json'), 'w') as f:
            json.dump(sorted(lines), f)
    if notes:
        coverage['notes'] = notes
    if known:
        coverage['known_findings_seen'] = {k['what']: len(l) for k, l in kf}
    ev = dict(property=prop, tier=args.tier, seed=args.seed, level=meta['level'], coverage=coverage,
              assumptions=meta.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(real))
    if not args.replay and args.case is None and not os.environ.get('VERIF_NOEV'):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', f'{prop}.json')
        with open(p + '.tmp', 'w', encoding='utf-8') as f:
            json.dump(ev, f, ensure_ascii=False, indent=1, default=repr)
        os.replace(p + '.tmp', p)

    for key, lst in list(real.items())[:8]:
        case, v = lst[0]
        path = write_replay(prop, args.tier, args.seed, case, v)
        print(f'  {key}: {v["message"][:600]} (x{len(lst)})')
        print(f'VIOLATION property={prop} replay={path}')
    if real:
        return 1
    if errors:
        print(f'{len(errors)} case(s) could not be judged; first:\n{errors[0][1]}\ncase={_short(errors[0][0], 600)}')
        return 2
    # the monitors must have seen something, or the run says nothing
    if not args.replay and args.case is None and not args.first:
        for name, least in meta.get('require', {}).items():
            have = len(sigs) if name == 'distinct' else counts.get(name, 0)
            if have < least:
                print(f'inconclusive: monitor "{name}" saw {have} event(s), needs {least}')
                return 2
    print(f'{prop} {args.tier} seed={args.seed}: held on {ran} case(s), {len(sigs)} distinct, '
          f'{counts.get("assertions", 0)} assertions, {time.time() - t0:.1f}s'
          + (' (stopped by time budget)' if truncated else ''))
    return 0
