"""Shared machinery of the checks: scratch space, forked children, TLC,
quantisation, evidence, verdicts."""

import glob
import json
import os
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
NPROC = int(os.environ.get('VERIF_NPROC', '8'))

for k, v in {'MPLBACKEND': 'Agg', 'OPENBLAS_NUM_THREADS': '1',
             'OMP_NUM_THREADS': '1', 'PYTHONHASHSEED': '0',
             'PYTHONDONTWRITEBYTECODE': '1'}.items():
    os.environ[k] = v
sys.dont_write_bytecode = True


class Infra(Exception):
    """The machinery itself failed."""


class Violation(Exception):
    def __init__(self, what, replay=None):
        Exception.__init__(self, what)
        self.what = what
        self.replay = replay


def seed():
    return int(os.environ.get('VERIF_SEED', '1'))


def tier():
    return os.environ.get('VERIF_TIER', 'quick')


# --- Numbers -----------------------------------------------------------------

BIG = 2000000000


def qi(x, scale):
    """Quantise one number."""
    y = x*scale
    if not (-BIG < y < BIG):      # also catches nan
        return BIG
    return int(round(y))


def q(a, scale):
    """Quantise nested lists or arrays into nested lists of integers."""
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.where(np.isfinite(a), a*scale, BIG)
    b = np.clip(np.rint(b), -BIG, BIG)
    return b.astype(int).tolist()


# --- Children ----------------------------------------------------------------

def pmap(func, tasks, nproc=None, timeout=300):
    """Run func(task) in one forked child per task, at most nproc at a time.
    Returns a list of results; a child that dies gives {'status': 'killed'}
    and one that takes too long {'status': 'timeout'}."""
    nproc = nproc or NPROC
    results = [None]*len(tasks)
    running = {}
    d = tempfile.mkdtemp(prefix='pm', dir=scratch())
    todo = list(range(len(tasks)))
    todo.reverse()
    sys.stdout.flush()
    sys.stderr.flush()
    while todo or running:
        while todo and len(running) < nproc:
            i = todo.pop()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    signal.signal(signal.SIGINT, signal.SIG_IGN)
                    os.setsid()
                    try:
                        r = func(tasks[i])
                    except BaseException as e:
                        r = {'status': 'harness-exception',
                             'detail': traceback.format_exc()}
                    with open('%s/%d.tmp' % (d, i), 'wb') as f:
                        pickle.dump(r, f)
                    os.rename('%s/%d.tmp' % (d, i), '%s/%d' % (d, i))
                    code = 0
                finally:
                    os._exit(code)
            running[pid] = (i, time.time())
        pid, st = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            now = time.time()
            for p, (i, t) in list(running.items()):
                if now - t > timeout:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    del running[p]
                    results[i] = {'status': 'timeout'}
            time.sleep(0.004)
            continue
        if pid not in running:
            continue
        i, _ = running.pop(pid)
        fn = '%s/%d' % (d, i)
        if os.path.exists(fn):
            with open(fn, 'rb') as f:
                results[i] = pickle.load(f)
            os.remove(fn)
        else:
            results[i] = {'status': 'killed', 'code': st}
    shutil.rmtree(d, ignore_errors=True)
    return results


_scratch = []


def scratch():
    if not _scratch:
        d = tempfile.mkdtemp(prefix='sdverif-')
        _scratch.append(d)
        os.environ['NUMBA_CACHE_DIR'] = d + '/numba'
        os.environ['PYTHONPYCACHEPREFIX'] = d + '/pyc'
        os.environ['MPLCONFIGDIR'] = d + '/mpl'
        os.environ['TMPDIR'] = d
        for s in ('numba', 'pyc', 'mpl'):
            os.mkdir(d + '/' + s)
    return _scratch[0]


_n = [0]


def newdir(tag='d'):
    _n[0] += 1
    d = '%s/%s%d' % (scratch(), tag, _n[0])
    os.makedirs(d)
    return d


_warm = []


def warm():
    """Import the heavy libraries in this process, and let one child compile
    what the repository compiles so that the others find it in the cache."""
    if _warm:
        return
    scratch()
    import numpy, scipy, scipy.sparse, scipy.linalg, psutil  # noqa
    import numba  # noqa
    import child
    pos = {'sphere_sizes': [1, 1], 'sphere_positions': [[0, 0, 0], [2.5, 0, 0]],
           'dumbbell_sizes': [.1], 'dumbbell_positions': [[5, 5, 5]],
           'dumbbell_deltax': [[1, 0, 0]]}
    z = [[0, 0, 0], [0, 0, 0]]
    vals = {'Fa': z, 'Ta': z, 'Ea': [[[0]*3]*3]*2, 'Fb': z[:1], 'DFb': z[:1]}
    pmap(child.solve_chunk, [{'cwd': scratch(), 'problems': [
        {'pos': pos, 'vals': vals, 'form': 'fte'}]}])
    _warm.append(1)


def mobilities(problems, settings=None, **kw):
    """Full mobility matrices, by unit loads."""
    import child
    return solves(problems, settings, func=child.mobility_chunk, **kw)


def solves(problems, settings=None, timeout=600, nproc=None, func=None):
    """Solve many problems, in as many children as there are cores. Problems
    may name their own settings ('settings' key)."""
    import child
    func = func or child.solve_chunk
    warm()
    nproc = nproc or NPROC
    groups = {}
    for i, p in enumerate(problems):
        s = p.get('settings', settings)
        groups.setdefault(json.dumps(s, sort_keys=True), []).append(i)
    tasks, where = [], []
    for key, idx in groups.items():
        n = max(1, min(len(idx), -(-nproc*len(idx)//len(problems))))
        for c in range(n):
            sub = idx[c::n]
            tasks.append({'cwd': newdir('w'), 'settings': json.loads(key),
                          'problems': [problems[i] for i in sub]})
            where.append(sub)
    res = pmap(func, tasks, nproc=nproc, timeout=timeout)
    out = [None]*len(problems)
    for sub, r in zip(where, res):
        for j, i in enumerate(sub):
            out[i] = r[j] if isinstance(r, list) else {
                'error': r.get('detail') or r.get('status')}
    return out


def runs(tasks, timeout=300, nproc=None):
    """Run the simulation script for every task, each in its own child."""
    import child
    warm()
    for t in tasks:
        if 'cwd' not in t:
            t['cwd'] = newdir('r')
    return pmap(child.run_script, tasks, nproc=nproc, timeout=timeout)


def outputs(cwd):
    """The output folder of a run: final files and backups, loaded."""
    import numpy as np
    res = {'final': {}, 'temp': {}, 'other': []}
    for f in sorted(glob.glob(cwd + '/output/*')):
        b = os.path.basename(f)
        if not b.endswith('.npz'):
            res['other'].append(b)
            continue
        try:
            with np.load(f, allow_pickle=True) as z:
                c = {k: np.array(z[k]) for k in z.files}
        except Exception:
            c = None
        res['temp' if b.endswith('_TEMP.npz') else 'final'][b] = c
    return res


# --- TLC ---------------------------------------------------------------------

class TlcResult:
    def __repr__(self):
        return 'TLC(%s)' % self.__dict__


def tlc(module, cfg, data=None, workers=None, simulate=None, depth=None,
        coverage=False, timeout=800, heap='3g', seed_=None, keep=None):
    """Run TLC on spec/<module>.tla with the given configuration text (or the
    name of a file in spec/). data: {file name: object or list of objects};
    lists are written as one JSON value per line."""
    d = newdir('tlc')
    for f in glob.glob(SPEC + '/*.tla'):
        shutil.copy(f, d)
    if '\n' not in cfg and cfg.endswith('.cfg'):
        with open(os.path.join(SPEC, cfg)) as f:
            cfg = f.read()
    with open(d + '/run.cfg', 'w') as f:
        f.write(cfg)
    for name, obj in (data or {}).items():
        with open(d + '/' + name, 'w') as f:
            if isinstance(obj, list):
                for o in obj:
                    f.write(json.dumps(o) + '\n')
            else:
                json.dump(obj, f)
    cmd = ['java', '-Xmx' + heap, '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-Djava.io.tmpdir=' + d,
           '-cp', '/opt/veriftools/tla/tla2tools.jar:'
           '/opt/veriftools/tla/CommunityModules-deps.jar',
           'tlc2.TLC', '-noGenerateSpecTE', '-config', 'run.cfg',
           '-workers', str(workers or 1), '-metadir', d + '/states']
    if simulate:
        cmd += ['-simulate', simulate]
    if depth:
        cmd += ['-depth', str(depth)]
    if seed_ is not None:
        cmd += ['-seed', str(seed_)]
    if coverage:
        cmd += ['-coverage', '1']
    cmd.append(module + '.tla')
    t0 = time.time()
    r = TlcResult()
    r.dir = d
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout,
                           text=True)
        r.text, r.code = p.stdout, p.returncode
    except subprocess.TimeoutExpired as e:
        r.text = (e.stdout or b'').decode(errors='replace') if isinstance(
            e.stdout, bytes) else (e.stdout or '')
        r.code = 'timeout'
    r.wall = time.time() - t0
    r.generated = r.distinct = 0
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', r.text)
    if m:
        r.generated, r.distinct = int(m[-1][0]), int(m[-1][1])
    else:
        m = re.findall(r'(\d+) states checked', r.text)
        if not m:
            m = re.findall(r'The number of states generated: (\d+)', r.text)
        if m:
            r.generated = r.distinct = int(m[-1])
    m = re.search(r'depth of the complete state graph search is (\d+)', r.text)
    r.depth = int(m.group(1)) if m else 0
    m = re.search(r'Invariant (\w+) is violated|Action property (\w+) is violated|'
                  r'Temporal properties were violated|Postcondition (\w+)|'
                  r'Assumption .* is false|Deadlock reached', r.text)
    r.violated = None
    if m:
        r.violated = next((g for g in m.groups() if g), m.group(0))
    r.ok = (r.code == 0)
    r.prints = re.findall(r'^<<"VOUT", .*>>$', r.text, re.M)
    if keep is None:
        shutil.rmtree(d + '/states', ignore_errors=True)
    return r


def tlc_states(text):
    """The states of the last counterexample in TLC's output, as text."""
    return re.findall(r'^State \d+:.*?(?=^State \d+:|\Z|^\d+ states generated)',
                      text, re.M | re.S)


# --- A check -----------------------------------------------------------------

class Check:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.level = level
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0,
                    'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.violations = []
        self.tier = tier()
        self.seed = seed()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, k=0):
        import numpy as np
        return np.random.RandomState((self.seed*7919 + k*104729
                                      + sum(map(ord, self.prop))) % (2**31))

    def count(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s):
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(s)

    def violation(self, what, detail=None):
        self.violations.append((what, detail))

    def known(self, what):
        """An open finding from KNOWN_FINDINGS.txt has shown itself."""
        self.cov.setdefault('known_findings', []).append(what)
        print('KNOWN-FINDING: property=%s %s' % (self.prop, what))

    # Model checking of a specification with its own (small) constants.
    def model(self, module, cfg, **kw):
        r = tlc(module, cfg, workers=kw.pop('workers', 4), **kw)
        if not r.ok:
            sys.stdout.write(r.text[-6000:])
            raise Infra('specification %s does not check: %s'
                               % (module, r.violated or r.code))
        self.count(states=r.distinct, transitions=r.generated)
        self.cov.setdefault('models', {})[module + ':' + (
            cfg if cfg.endswith('.cfg') else 'generated')] = {
                'distinct_states': r.distinct, 'generated': r.generated,
                'seconds': round(r.wall, 1)}
        return r

    # Validation of traces recorded from the implementation.
    def validate(self, module, cfg, events, ntraces, data=None, describe=None,
                 **kw):
        """events: list of JSON objects, read by the module from trace.ndjson.
        The module's invariant TraceAccepted / postcondition decides; on a
        rejection it prints <<"VOUT", index, clause>>."""
        d = {'trace.ndjson': events}
        d.update(data or {})
        r = tlc(module, cfg, data=d, workers=1, **kw)
        self.cov['trace_events'] = self.cov.get('trace_events', 0) + len(events)
        self.cov['trace_states'] = self.cov.get('trace_states', 0) + r.distinct
        if r.ok:
            self.count(traces_validated_against_impl=ntraces)
            return True
        m = re.findall(r'<<"VOUT", (\d+), "([^"]*)"(.*?)>>\s*$', r.text, re.M)
        if not m and 'Overflow when computing' in r.text:
            self.violation('%s: values of the trace are out of all bounds'
                           % module, {'tlc': r.text[-3000:]})
            return False
        if not m and not r.violated:
            sys.stdout.write(r.text[-5000:])
            raise Infra('TLC failed on the trace of ' + module)
        if m:
            i, clause = int(m[0][0]), m[0][1]
            ev = events[i-1] if 0 < i <= len(events) else None
            self.violation('%s: event %d rejected by clause "%s"'
                           % (module, i, clause),
                           {'event': ev, 'clause': clause,
                            'context': describe(i-1) if describe else None})
        else:
            self.violation('%s: %s' % (module, r.violated),
                           {'tlc': r.text[-3000:]})
        return False

    def finish(self):
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': self.cov,
              'wall_s': round(time.time() - self.t0, 2),
              'assumptions': self.assumptions,
              'violations': len(self.violations)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % self.prop, 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        if self.violations:
            rd = VERIF + '/evidence/replay'
            os.makedirs(rd, exist_ok=True)
            path = '%s/%s.json' % (rd, self.prop)
            with open(path, 'w') as f:
                json.dump([{'what': w, 'detail': d} for w, d in self.violations[:20]],
                          f, indent=1, default=str)
            for w, d in self.violations[:8]:
                print('  ' + str(w)[:600])
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        print('OK property=%s %s' % (self.prop, json.dumps(
            {k: v for k, v in self.cov.items() if k not in ('samples', 'models')},
            default=str)))
        return 0


def main(prop, func):
    chk = Check(prop)
    code = 2
    try:
        func(chk)
        code = chk.finish()
    except Infra:
        traceback.print_exc()
        code = 2
    except Violation as e:
        chk.violation(e.what, e.replay)
        code = chk.finish()
    except Exception:
        # The machinery is exercised on the unchanged tree: what it cannot
        # make sense of is the implementation's behaviour.
        tb = traceback.format_exc()
        print(tb)
        chk.violation('the behaviour of the implementation could not be '
                      'interpreted: ' + tb.strip().splitlines()[-1], tb)
        code = chk.finish()
    finally:
        sys.stdout.flush()
        if _scratch and not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(_scratch[0], ignore_errors=True)
    return code
