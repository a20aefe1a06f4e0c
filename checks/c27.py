"""C27: compiled code, new or kept from earlier runs, answers as the
interpreted code does.

GenCompiled lists histories of processes which share a folder of compiled
code, with changes of settings and tables in between. They are played with
real processes (the compiler on or off, a folder of their own), and
SDCompiledTrace compares every answer with the interpreted one."""
import json
import os
import re
import shutil
import sys

import numpy as np

import c26
import child
import solvelab
import vlib

TOL = 3
UNIT = 1e6
FIELDS = ('Fa', 'Ta', 'Sa', 'Fb', 'DFb', 'Ua', 'Oa', 'Ea', 'Ub', 'HalfDUb')
SAVED = ('centres', 'deltax', 'sphere_rotations', 'Fa', 'Ta', 'Sa', 'Fb', 'DFb')


# --- In the child ---------------------------------------------------------------

def other_tables():
    """As if the resistance tables had been generated anew."""
    load = np.load

    def changed(f, *a, **k):
        x = load(f, *a, **k)
        if str(getattr(f, 'name', f)).endswith('scalars_general_resistance_d.npy'):
            x = 1.25*x
        return x
    np.load = changed


def process(task):
    """One process: its compiler on or off, its settings, and its tables."""
    import numba
    w = task['world']
    settings = dict({'bead_bead_interactions': bool(w['bead']),
                     'how_far_to_reproduce_gridpoints': 1 + w['reach']},
                    **task.get('settings', {}))
    numba.config.CACHE_DIR = task['cache']
    if not w['tables']:
        other_tables()
    sys.argv = ['run_simulation.py'] + [str(a) for a in task.get('argv', [])]
    sys.path.insert(0, child.SD)
    import settings as st        # turns the compiler off unless told otherwise
    numba.config.DISABLE_JIT = task['mode'] != 'compiled'
    del st
    if 'problems' in task:
        return child.solve_chunk(dict(task, settings=settings))
    os.makedirs(task['cwd'] + '/output', exist_ok=True)
    r = child.run_script(dict(task, settings=settings))
    if r['status'] != 'ok':
        return [{'error': '%s %s' % (r['status'], r['detail'])}]
    o = list(vlib.outputs(task['cwd'])['final'].values())
    if len(o) != 1 or o[0] is None:
        return [{'error': 'no output'}]
    return [{k: np.array(o[0][k], dtype=float) for k in SAVED if k in o[0]}]


# --- Histories -------------------------------------------------------------------

def histories(chk):
    r = vlib.tlc('GenCompiled', open(vlib.SPEC + '/GenCompiled.cfg').read(), workers=4)
    if not r.ok:
        raise vlib.Infra('GenCompiled failed')
    out = {}
    for m in re.findall(r'"VCH (\{.*\})"', r.text):
        out[m] = json.loads(m.replace('\\"', '"'))
    out = [out[k] for k in sorted(out)]
    if len(out) < 500:
        raise vlib.Infra('GenCompiled produced too little')
    chk.count(states=r.distinct, transitions=r.generated)
    return out


def free_problems(rng, n):
    out = []
    for k in range(n):
        ns, nd = [(0, 3), (2, 2), (1, 2), (3, 0), (1, 3)][k % 5]
        p = solvelab.random_problem(rng, ns, nd, palette=solvelab.TAME[rng.randint(3)])
        if k == n-1:
            p['opts'] = {'minf_only': True}
        out.append(solvelab.task(p))
    return out


def box_problems(rng, n):
    return [solvelab.task(solvelab.random_periodic(rng, *[(1, 2), (2, 0), (0, 2)][k % 3]))
            for k in range(n)]


def script(rng, scheme):
    while True:
        w = c26.world(rng, True)
        if w['ns'] and w['nd']:
            break
    w['pos'] = dict(w['pos'])
    # a second dumbbell beside the first
    for f, d in (('dumbbell_sizes', 0), ('dumbbell_positions', [0, 3*w['bead'], 60*w['size']]),
                 ('dumbbell_deltax', 0)):
        x = list(w['pos'][f])
        w['pos'][f] = [x[0], np.array(x[0]) + d]
    w['pos']['dumbbell_positions'][0] = w['pos']['dumbbell_positions'][1] + [0, 3*w['bead'], 0]
    for g in ('forces', 'springs'):
        for f in ('Fb', 'DFb'):
            w['law'][g][f] = list(w['law'][g][f])[:1]*2
    return {'pos': w['pos'], 'law': c26.make_law, 'law_args': w['law'],
            'argv': [1001, 1001, .0625, 3, 'fte'],
            'settings': {'timestepping_scheme': scheme, 'invert_m_every': 2}}


def scripts(rng, n):
    out = []
    for k in range(n):
        if k == 1:      # an example as supplied, with whole numbers for positions
            out.append({'argv': [4, 3, .5, 2, 'fte'], 'settings': {}})
        elif k == 3:
            out.append({'argv': [2, 1, 2, 2, 'fte'], 'settings': {'timestepping_scheme': 'rk4'}})
        else:
            out.append(script(rng, ['rk4', 'ab2', 'euler'][k % 3]))
    return out


def flat(answers, fields):
    """All numbers of the answers, per field."""
    return {f: np.concatenate([np.ravel(a[f]) for a in answers if f in a] or [[]])
            for f in fields}


def quantised(x, sizes):
    return [v for f in sorted(sizes) for v in vlib.q(x[f]/sizes[f], UNIT)]


def error(answers):
    if not isinstance(answers, list):
        return str(answers.get('detail') or answers.get('status'))
    for a in answers:
        if 'error' in a:
            return a['error']
    return ''


def worlds(path):
    out = []
    for b in (0, 1):
        for t in (0, 1):
            for r in ((0, 1) if path == 'box' else (1,)):
                out.append({'bead': b, 'tables': t, 'reach': r})
    return out


def restricted(w, path):
    return w if path == 'box' else dict(w, reach=1)


def run(chk):
    chk.model('MCCompiled', 'MCCompiled.cfg')
    rng = chk.rng(1)
    every = histories(chk)
    vlib.warm()
    # What is asked, per group: one path, and one world to compile in
    groups = []
    jobs = {'free': [{'problems': free_problems(rng, chk.pick(5, 15))}],
            'box': [{'problems': box_problems(rng, chk.pick(3, 6))}],
            'run': scripts(rng, chk.pick(3, 6))}
    for path, js in jobs.items():
        for k, j in enumerate(js):
            firsts = ({'bead': 0}, {'bead': 1}) if path != 'run' else ({'bead': k % 2},)
            reach = int(rng.randint(2))
            for f in firsts:
                w = restricted(dict({'tables': 1, 'reach': reach}, **f), path)
                reach = 1 - reach
                groups.append({'path': path, 'job': j, 'first': w, 'cache': vlib.newdir('c')})
    # Interpreted answers in every world
    tasks, where = [], []
    for path, js in jobs.items():
        for j in js:
            for w in worlds(path):
                tasks.append(dict(j, world=w, mode='interpreted', cwd=vlib.newdir('i'),
                                  cache=vlib.newdir('n')))
                where.append((j, w))
    # ... and the first, compiling, processes
    for g in groups:
        tasks.append(dict(g['job'], world=g['first'], mode='compiled', cwd=vlib.newdir('p'),
                          cache=g['cache']))
    tasks = tasks[::-1]
    res = vlib.pmap(process, tasks, timeout=800)[::-1]
    for (j, w), r in zip(where, res):
        if error(r):
            raise vlib.Violation('an interpreted process fails: ' + error(r),
                                 {'world': w, 'job': repr(j)[:3000]})
        j.setdefault('refs', []).append((w, r))
    for j in [j for js in jobs.values() for j in js]:
        fields = SAVED if 'problems' not in j else FIELDS
        j['flat'] = [(w, flat(r, fields)) for w, r in j['refs']]
        j['sizes'] = {f: max(1e-9, *(np.max(np.abs(x[f]), initial=0) for _, x in j['flat']))
                      for f in fields}
        j['q'] = [{'facts': w, 'ans': quantised(x, j['sizes'])} for w, x in j['flat']]

    def event(j, path, mode, w, r):
        e = {'kind': 'process', 'path': path, 'mode': mode, 'facts': w, 'refs': j['q'],
             'tol': TOL, 'error': error(r), 'got': []}
        if not e['error']:
            try:
                e['got'] = quantised(flat(r, sorted(j['sizes'])), j['sizes'])
            except ValueError as x:
                e['error'] = str(x)
        return e
    for g, r in zip(groups, res[len(where):]):
        g['event'] = event(g['job'], g['path'], 'compiled', g['first'], r)
    # Later processes, each history with a copy of the folder
    plays = []
    for g in groups:
        fit = [h for h in every if h['path'] == g['path']
               and restricted(h['past'][0]['world'], g['path']) == g['first']
               and h['past'][0]['mode'] == 'compiled']
        still = [h for h in fit if 'tables' not in h['shows']
                 and all(p['world']['tables'] for p in h['past'])]
        moved = [h for h in fit if h['shows'] == ['tables']
                 and h['past'][1]['mode'] == 'compiled'
                 and h['past'][1]['world']['tables'] == 0]
        some = [still[i] for i in rng.permutation(len(still))[:chk.pick(3, 12)]]
        for f in ['bead'] + ['reach']*(g['path'] == 'box'):
            at_once = [h for h in still if h['past'][1]['mode'] == 'compiled'
                       and h['past'][1]['world'][f] != h['past'][0]['world'][f]]
            some += [at_once[rng.randint(len(at_once))]]
        if moved:
            some += [moved[rng.randint(len(moved))]]
        for h in some:
            plays.append({'g': g, 'h': h, 'events': [{'kind': 'new'}, g['event']]})
    for p in plays:
        p['cache'] = vlib.newdir('k')
        shutil.rmtree(p['cache'])
        shutil.copytree(p['g']['cache'], p['cache'])
    for k in (1, 2):
        tasks = [dict(p['g']['job'], world=restricted(p['h']['past'][k]['world'], p['g']['path']),
                      mode=p['h']['past'][k]['mode'], cwd=vlib.newdir('p'), cache=p['cache'])
                 for p in plays]
        for t in tasks:
            for key in ('refs', 'flat', 'q', 'sizes'):
                t.pop(key, None)
        for p, t, r in zip(plays, tasks, vlib.pmap(process, tasks, timeout=800)):
            p['events'].append(event(p['g']['job'], p['g']['path'], t['mode'], t['world'], r))
    chk.count(inputs=len(where) + len(groups) + 2*len(plays))
    chk.cov['histories'] = {'listed': len(every), 'played': len(plays)}
    bead = [1 for j in jobs['free'] + jobs['box']
            if any(j['q'][0]['ans'] != x['ans'] for x in j['q'])]
    if not bead:
        raise vlib.Infra('no setting makes a difference')
    events, about = [], []
    for p in plays:
        if p['h']['shows'] != ['tables']:
            about += [p]*len(p['events'])
            events += p['events']

    def describe(i):
        return {'history': about[i]['h'], 'job': repr({
            k: v for k, v in about[i]['g']['job'].items()
            if k not in ('refs', 'flat', 'q', 'sizes')})[:4000]}
    ok = chk.validate('SDCompiledTrace', 'SDCompiledTrace.cfg', events,
                      len([p for p in plays if p['h']['shows'] != ['tables']]),
                      describe=describe)
    if ok:
        tables(chk, [p for p in plays if p['h']['shows'] == ['tables']])


def tables(chk, plays):
    """Changed tables: an open finding, unless it is something else."""
    shown = set()
    for p in plays:
        r = vlib.tlc('SDCompiledTrace', 'SDCompiledTrace.cfg',
                     data={'trace.ndjson': p['events']}, workers=1)
        m = re.findall(r'<<"VOUT", (\d+), "([^"]*)"', r.text)
        if r.ok:
            chk.count(traces_validated_against_impl=1)
        elif m and m[0][1] == 'as with the earlier tables':
            shown.add(p['g']['path'])
        else:
            chk.violation('SDCompiledTrace: a process rejected by clause "%s"'
                          % (m[0][1] if m else r.violated),
                          {'history': p['h'], 'tlc': '' if m else r.text[-3000:]})
            return
    if shown:
        chk.known('compiled code kept from an earlier run goes on using the '
                  'resistance tables of that run (%s)' % ', '.join(sorted(shown)))
