"""C28: the progress reports of a run are right.

Runs of the real script with a clock that only the user's input function
advances, by a chosen time per frame; some are killed and resumed. What they
print is read and validated by SDProgressTrace."""
import datetime
import glob
import os
import re
import sys
import time

import numpy as np

import child
import runlab
import vlib

START = datetime.datetime(2026, 3, 4, 0, 0, 0)       # a Wednesday
COLOURS = {'94': 1, '95': 2, '91': 3, '93': 4, '92': 5}
DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']


# --- In the child ---------------------------------------------------------------

def make_law(clock, seconds, stop, ns, log):
    """Takes its time, by our clock, once per frame."""
    seen = set()

    def law(n, posdata, frameno, timestep, last_velocities, form):
        sys.stdout.flush()
        with open(log, errors='replace') as f:
            begun = re.findall(r'Processing frame +(\d+)/', f.read())
        k = int(begun[-1]) - 1 if begun else -1
        if k >= 0 and k not in seen:
            seen.add(k)
            if k == stop:
                os._exit(77)
            clock[0] += seconds[min(k, len(seconds)-1)]
        return {'Fa': [[.1, .2, .3]]*ns, 'Ta': [[0, 0, 0]]*ns, 'Ea': [[[0]*3]*3]*ns}
    return law


def session(t):
    clock = [t['begin']]
    for name in ('time', 'perf_counter', 'monotonic', 'process_time'):
        setattr(time, name, lambda: clock[0])
    real = datetime.datetime

    class Now(real):
        @classmethod
        def now(cls, tz=None):
            return real.fromtimestamp(clock[0], tz)

        @classmethod
        def today(cls):
            return real.fromtimestamp(clock[0])
    datetime.datetime = Now
    t['law_args'] = dict(t['law_args'], clock=clock)
    import numba
    sys.argv = ['run_simulation.py'] + [str(a) for a in t['argv']]
    sys.path.insert(0, child.SD)
    import settings as st        # turns the compiler off unless told otherwise
    numba.config.CACHE_DIR = t['cwd'] + '/compiled'
    numba.config.DISABLE_JIT = not t['compiles']
    del st
    return child.run_script(t)


# --- Reading ----------------------------------------------------------------------

def span(text):
    """A written time: its form, and tenths of seconds or seconds."""
    m = re.fullmatch(r'\s*(\d+)\.(\d)s', text)
    if m:
        return {'form': 's', 'shown': 10*int(m[1]) + int(m[2])}
    m = re.fullmatch(r'\s*(\d+):(\d\d)', text)
    if m and int(m[2]) < 60:
        return {'form': 'm', 'shown': 60*int(m[1]) + int(m[2])}
    m = re.fullmatch(r'\s*(\d+):(\d\d):(\d\d)', text)
    if m and int(m[2]) < 60 and int(m[3]) < 60:
        return {'form': 'h', 'shown': 3600*int(m[1]) + 60*int(m[2]) + int(m[3])}
    m = re.fullmatch(r'(\d+)d\s*(\d+):(\d\d):(\d\d)', text)
    if m and int(m[2]) < 24 and int(m[3]) < 60 and int(m[4]) < 60:
        return {'form': 'd', 'shown': 86400*int(m[1]) + 3600*int(m[2])
                + 60*int(m[3]) + int(m[4])}
    return {'form': 'unreadable: ' + text, 'shown': 0}


def end(text):
    m = re.fullmatch(r'(\d\d):(\d\d)', text)
    if m:
        return {'form': 'today', 'h': int(m[1]), 'm': int(m[2])}
    m = re.fullmatch(r'(\w+) (\d\d):(\d\d)', text)
    if m and m[1] in DAYS:
        return {'form': 'week', 'day': DAYS.index(m[1]), 'h': int(m[2]), 'm': int(m[3])}
    m = re.fullmatch(r'(\d\d)/(\d\d)/26 (\d\d):(\d\d)', text)
    if m:
        return {'form': 'date', 'month': int(m[2]), 'date': int(m[1]), 'h': int(m[3]),
                'm': int(m[4])}
    return {'form': 'unreadable: ' + text}


LINE = re.compile(r'Processing frame +(\d+)/(\d+)\.\.\..*?'
                  r'\[\[\x1b\[1m(.*?)\x1b\[0m\]\] '
                  r'\[\x1b\[(\d+)m(<*)([^<\x1b]*)\x1b\[0m\] \[(<*)([^<\]]*)\]', re.S)


def reports(text):
    out, before = [], 0
    for m in LINE.finditer(text):
        names = re.findall(r'\[Generating (\S+)\]', text[before:m.start()])
        before = m.end()
        out.append({'names': names, 'number': int(m[1]), 'of': int(m[2]), 'elapsed': span(m[3]),
                    'left': dict(span(m[6]), mark=m[5], colour=COLOURS.get(m[4], 9)),
                    'endmark': m[7], 'end': end(m[8])})
    m = re.search(r'\[Total time to run (.*?)\]', text)
    return out, span(m[1]) if m else None


# --- Runs -------------------------------------------------------------------------

def durations(rng, n):
    """Units in a second, and the units each frame takes."""
    kind = rng.randint(6)
    if kind == 0:
        return 10, rng.randint(1, 60, n)
    if kind == 1:
        return 10, rng.randint(1, 4000, n)
    if kind == 2:
        return 1, rng.randint(1, 3000, n)
    if kind == 3:
        return 1, rng.randint(100, 30000, n)
    if kind == 4:
        return 1, rng.randint(20000, 120000, n)
    return 1, rng.randint(100000, 300000, n)


EDGES = [60, 600, 3600, 18000, 86400]


def aimed(rng, n, begin):
    """As durations, the first estimate being next to a time at which what is
    written changes."""
    kind = rng.randint(3)
    if kind == 0:
        t = EDGES[rng.randint(len(EDGES))]
        u = 10
        t += rng.randint(-2, 3)
    else:
        u = 1
        days = 0 if kind == 1 else 6
        # Up to that many days after the next midnight, and into the next day
        t = 86400*(1 + days) - begin % 86400 + [
            rng.randint(-300, 300), rng.randint(begin % 86400 + 1)][rng.randint(2)]
        t = max(t, 10)
    first = int(t*u/1.03/(n - 1)) + int(rng.randint(2))
    return u, np.concatenate([[first], rng.randint(1, max(2, first), n - 1)])


def now_of(begin, past):
    t = START + datetime.timedelta(seconds=begin + past)
    return {'sec': t.hour*3600 + t.minute*60 + t.second, 'weekday': t.weekday(),
            'month': t.month, 'date': t.day}


def run(chk):
    chk.model('MCProgress', 'MCProgress.cfg')
    rng = chk.rng(1)
    runs = []
    for k in range(chk.pick(150, 800)):
        n = int(rng.randint(1, 9)) if k % 25 else int(rng.randint(21, 26))
        inv = int(rng.randint(1, 5))
        begin = int(rng.randint(86400))
        u, d = aimed(rng, n, begin) if n > 1 and k % 2 else durations(rng, n)
        if n > 20:
            u, d = 1, rng.randint(1, 8, n)
        compiles = bool(rng.randint(3) == 0)
        stop = int(rng.randint(1, min(n, 19))) if n > 1 and k % 3 == 0 else -1
        runs.append({'n': n, 'inv': inv, 'u': u, 'd': [int(x) for x in d], 'stop': stop,
                     'compiles': compiles,
                     'scheme': ['euler', 'ab2', 'rk4'][rng.randint(3)],
                     'begin': begin, 'cwd': vlib.newdir('p')})

    def task(r, stop, log):
        c = runlab.cfg(r['n'], scheme=r['scheme'], inv=r['inv'], backups=True)
        t = runlab.task('steady', c, r['cwd'])
        ns = 1
        return dict(t, pos={'sphere_sizes': [1.]*ns, 'sphere_positions': [[0., 0, 0]]*ns,
                            'dumbbell_sizes': [], 'dumbbell_positions': [], 'dumbbell_deltax': []},
                    law=make_law, log=log, compiles=r['compiles'], begin=START.timestamp() + r['begin'],
                    law_args={'seconds': [x/r['u'] for x in r['d']], 'stop': stop, 'ns': ns,
                              'log': r['cwd'] + '/' + log},
                    argv=[1001, 1001, .25, r['n'], 'fte'])
    vlib.warm()
    halted = [r for r in runs if r['stop'] >= 0]
    vlib.pmap(session, [task(r, r['stop'], 'out0.txt') for r in halted])
    res = vlib.pmap(session, [task(r, -1, 'out1.txt') for r in runs])
    events, about = [], []
    for r, s in zip(runs, res):
        if s.get('status') != 'ok':
            raise vlib.Violation('a run fails: %s %s' % (s.get('status'), s.get('detail')),
                                 {k: r[k] for k in ('n', 'inv', 'd', 'stop', 'scheme')})
        for part in ((0, 1) if r['stop'] >= 0 else (1,)):
            with open('%s/out%d.txt' % (r['cwd'], part), errors='replace') as f:
                text = f.read()
            got, total = reports(text)
            # A resumed run repeats the frame that was backed up last
            first = r['stop'] - 1 if part == 1 and r['stop'] >= 0 else 0
            last = r['stop'] if part == 0 else r['n']
            if len(got) != last - first or (part == 1 and total is None):
                raise vlib.Violation('reports of %d frames instead of %d' % (
                    len(got), last - first), {'run': {k: r[k] for k in (
                        'n', 'inv', 'd', 'stop', 'scheme')}, 'text': text[:3000]})
            es = [{'kind': 'start', 'n': r['n'], 'inv': r['inv'], 'from': first, 'u': r['u'],
                   'compiles': r['compiles']}]
            past = 0
            stem = os.path.basename(sorted(glob.glob(r['cwd'] + '/output/*.npz'))[0])[:-len('.npz')]
            for k, g in enumerate(got):
                t = r['d'][first + k]
                past += t
                g['names'] = sum(1 if x == stem else 1000 for x in g['names'])
                es.append(dict(g, kind='frame', took=t, now=now_of(r['begin'], past/r['u'])))
            if part == 1:
                es.append({'kind': 'total', 'total': total})
            events += es
            about += [r]*len(es)
    chk.count(inputs=len(runs) + len(halted))
    chk.cov['reports'] = {
        'frames': sum(e['kind'] == 'frame' for e in events), 'resumed runs': len(halted),
        'runs that compile': sum(r['compiles'] for r in runs),
        'forms of the time left': sorted({e['left']['form'] for e in events if e['kind'] == 'frame'}),
        'forms of the end': sorted({e['end']['form'] for e in events if e['kind'] == 'frame'})}

    def describe(i):
        return {k: about[i][k] for k in ('n', 'inv', 'u', 'd', 'stop', 'compiles', 'scheme', 'begin')}
    chk.validate('SDProgressTrace', 'SDProgressTrace.cfg', events, len(runs) + len(halted),
                 describe=describe)
