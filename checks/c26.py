"""C26: a saved frame can be used again as the set-up of another run.

GenReuse lists the runs of SDRun and the rows from which a later run is part
of one long run. The runs are made with the real script; a second run's set-up
is read back from a file of the first; SDReuseTrace compares what was read
with what was saved, and both runs with one uninterrupted run."""
import json
import os
import re

import numpy as np

import runlab
import solvelab
import vlib

Q = 1e7
TOL = 20
DRAG = {'use_drag_Minfinity': True, 'use_Minfinity_only': True}


def make_law(forces, springs):
    """Forces which depend on where the particles are, not on the time."""
    def law(n, posdata, frameno, timestep, last_velocities, form):
        def f(name, x):
            return [np.array(a) + k*np.array(y)
                    for a, k, y in zip(forces[name], springs[name], x)]
        ns = len(posdata[0])
        v = {'Fa': f('Fa', posdata[1]), 'Fb': f('Fb', posdata[4]),
             'DFb': f('DFb', posdata[5])}
        if ns:
            v['Ta'] = forces['Ta']
            v['Ea'] = [[[0, 0, 0]]*3]*ns
        return v
    return law


def cases(chk):
    r = vlib.tlc('GenReuse', open(vlib.SPEC + '/GenReuse.cfg').read(), workers=4)
    if not r.ok:
        raise vlib.Infra('GenReuse failed')
    seen = {}
    for m in re.findall(r'"VCH (\{.*\})"', r.text):
        m = m.replace('\\"', '"')
        seen[m] = json.loads(m)
    out = [seen[k] for k in sorted(seen)]
    if len(out) < 100 or not any(len(x['rows']) > 2 for x in out):
        raise vlib.Infra('GenReuse produced too little')
    chk.count(states=r.distinct, transitions=r.generated)
    return out


def world(rng, full):
    """Particles of one size each, as read back frames have."""
    if full:
        ns, nd = [(2, 0), (1, 1), (2, 1), (3, 0)][rng.randint(4)]
        size, bead = [(1., 1.), (1., .1), (10., 1.), (.1, .1)][rng.randint(4)]
    else:
        ns, nd = [(1, 0), (3, 0), (0, 1), (0, 3), (1, 1), (2, 1), (1, 3), (3, 2)][rng.randint(8)]
        size, bead = [(1., .1), (1., 1.), (2., .2), (.5, .5), (.25, 2.5)][rng.randint(5)]
    if nd == 0:
        bead = .1
    if ns == 0:
        size = 1.
    if full:
        pos = solvelab.particles(rng, ns, nd, (size,), (bead,), close=.3, closest=2.3,
                                 spread=4.)
    else:
        pos = {'sphere_sizes': [size]*ns, 'dumbbell_sizes': [bead]*nd,
               'sphere_positions': rng.uniform(-9, 9, [ns, 3]).tolist(),
               'dumbbell_positions': rng.uniform(-9, 9, [nd, 3]).tolist(),
               'dumbbell_deltax': rng.uniform(-2, 2, [nd, 3]).tolist()}
    big = 1. if ns == 0 else size
    g = 3.*big*(.5 if full else 1.)
    forces = {'Fa': rng.uniform(-g, g, [ns, 3]), 'Ta': rng.uniform(-g, g, [ns, 3])*size**2,
              'Fb': rng.uniform(-1, 1, [nd, 3])*bead*2,
              'DFb': rng.uniform(-1, 1, [nd, 3])*bead}
    springs = {'Fa': rng.uniform(-.5, .2, ns), 'Fb': rng.uniform(-.5, .2, nd)*bead,
               'DFb': rng.uniform(-.5, .2, nd)*bead}
    if full:
        springs['Fa'] *= .2
        springs['Fb'] *= .2
    return {'pos': pos, 'size': size, 'bead': bead, 'settings': {} if full else DRAG,
            'form': 'fte' if ns else 'fts', 'ns': ns, 'nd': nd,
            'law': {'forces': {k: v.tolist() for k, v in forces.items()},
                    'springs': {k: v.tolist() for k, v in springs.items()}}}


def task(w, c, cwd, number, pos):
    t = runlab.task('steady', c, cwd, setup=number, dt=.125)
    s = dict(t['settings'])
    for k in DRAG:
        s.pop(k)
    return dict(t, pos=pos, law=make_law, law_args=w['law'], settings=dict(s, **w['settings']),
                argv=[number, 1001, .125, c['n'], w['form']])


def result(r, cwd, before=()):
    """The one new file of a run: its name and contents."""
    new = {k: v for k, v in vlib.outputs(cwd)['final'].items() if k not in before}
    if r.get('status') != 'ok' or len(new) != 1 or None in new.values():
        raise vlib.Violation('a run did not give its output: %s %s, files %s' % (
            r.get('status'), r.get('detail'), sorted(new)), {'log': cwd})
    return list(new.items())[0]


def q(x, s=Q):
    return vlib.q(x, s)


def rows(d, w):
    n = d['centres'].shape[0]
    if n == 0:
        return []
    if d['centres'].shape != (n, w['ns']+w['nd'], 3) or d['deltax'].size != n*w['nd']*3:
        raise vlib.Violation('saved arrays have shapes %s %s' % (
            d['centres'].shape, d['deltax'].shape), {'pos': w['pos']})
    dx = d['deltax'].reshape(n, w['nd'], 3)
    return [{'centres': q(d['centres'][k]), 'deltax': q(dx[k])} for k in range(n)]


def run(chk):
    chk.model('MCReuse', 'MCReuse.cfg')
    rng = chk.rng(1)
    every = cases(chk)
    group = {}
    for x in every:
        group.setdefault((x['c']['scheme'], x['c']['inv']), []).append(x['c'])
    some = [x for x in every if x['rows']]
    jobs = []
    for k in range(chk.pick(70, 500)):
        x = some[rng.randint(len(some))]
        full = k % 4 == 3
        w = world(rng, full)
        row = x['rows'][rng.randint(len(x['rows']))]
        g = group[(x['c']['scheme'], x['c']['inv'])]
        c2 = g[rng.randint(len(g))]
        jobs.append({'w': w, 'c1': x['c'], 'row': row, 'c2': c2, 'cwd': vlib.newdir('a'),
                     'ref': vlib.newdir('l')})
    n = len(jobs)
    first = [task(j['w'], j['c1'], j['cwd'], 1001, j['w']['pos']) for j in jobs]
    long = [task(j['w'], runlab.cfg(j['c1']['n'] + j['c2']['n'], scheme=j['c1']['scheme'],
                                    inv=j['c1']['inv']), j['ref'], 1001, j['w']['pos'])
            for j in jobs]
    res = vlib.runs(first + long)
    second, other, where = [], [], []
    for j, r in zip(jobs, res[:n]):
        j['name'], j['data'] = result(r, j['cwd'])
        stem = os.path.splitext(j['name'])[0]
        w = j['w']
        sizes = {'frameno': j['row']-1, 'sphere_size': w['size'], 'dumbbell_size': w['bead']}
        if j['row'] == 1 and rng.rand() < .5:
            del sizes['frameno']        # the first one unless told otherwise
        if w['size'] == 1.:
            del sizes['sphere_size']
        if w['bead'] == .1:
            del sizes['dumbbell_size']
        j['sizes'] = sizes
        second.append(task(w, j['c2'], j['cwd'], 1002, {'same_as': (stem, sizes)}))
    res2 = vlib.runs(second)
    events, about = [], []
    for k, j in enumerate(jobs):
        r = res2[k]
        w, row = j['w'], j['row']
        _, d2 = result(r, j['cwd'], [j['name']])
        _, dl = result(res[n+k], j['ref'])
        one = rows(j['data'], w)
        got = r['read_back']
        if got is None or len(got) != 6:
            raise vlib.Violation('a set-up read back has %s parts' % (got and len(got)), j['sizes'])
        if row <= len(one):
            events.append({'kind': 'read', 'centres': one[row-1]['centres'],
                           'deltax': one[row-1]['deltax'], 'size': q(w['size']),
                           'beadsize': q(w['bead']),
                           'got': {f: q(got[i]) for i, f in enumerate(
                               ('ss', 'sp', 'sr', 'ds', 'dp', 'dd'))}})
            about.append(k)
        events.append({'kind': 'runs', 'c1': j['c1'], 'c2': j['c2'], 'row': row, 'tol': TOL,
                       'first': one, 'second': rows(d2, w), 'long': rows(dl, w)})
        about.append(k)
        chk.count(inputs=3)

    def describe(i):
        j = jobs[about[i]]
        return {'first': j['c1'], 'row': j['row'], 'second': j['c2'], 'arguments': j['sizes'],
                'particles': j['w']['pos'], 'law': j['w']['law'], 'settings': j['w']['settings']}
    chk.validate('SDReuseTrace', 'SDReuseTrace.cfg', events, n, describe=describe)
    chk.cov['cases'] = {'rows read back': n, 'runs possible': len(every),
                        'row frames': sorted({j['row'] for j in jobs})}
