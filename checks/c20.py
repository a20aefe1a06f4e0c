"""C20: built-in forces and flows obey their physical laws."""
import json
import re

import numpy as np

import inputlab
import solvelab
import vlib

PI = np.pi


def shears(chk):
    r = vlib.tlc('GenInputs', open(vlib.SPEC + '/GenInputs.cfg').read(), workers=4)
    if not r.ok:
        print(r.text[-2000:])
        raise vlib.Infra('GenInputs failed')
    chk.count(states=r.distinct, transitions=r.generated)
    out = [json.loads(m.group(1).replace('\\"', '"'))
           for m in re.finditer(r'^"VCH (.*)"$', r.text, re.M)]
    out.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return out


def q3(v):
    return vlib.q(np.array(v, dtype=float), 1e4)


def number(x):
    try:
        return bool(np.all(np.isfinite(np.array(x, dtype=float))))
    except (TypeError, ValueError):
        return False


def flow(e, r, ns, asked):
    e.update({'ns': ns, 'tol': 12, 'asked': q3(asked), 'ok': 'error' not in r})
    if e['ok']:
        e.update({'E': q3(r['Ea']), 'O': q3(r['O']), 'U': q3(r['U']), 'Et': q3(r['Et']),
                  'Ot': q3(r['Ot']), 'centre': q3(r['centre'])})
    return e


class Batch:
    """Cases to ask for and how to turn the answers into events."""

    def __init__(self):
        self.cases, self.make = [], []

    def add(self, case, make):
        self.cases.append(case)
        self.make.append(make)

    def judge(self, chk, what):
        res = inputlab.ask(self.cases)
        events, owner = [], []
        for c, f, r in zip(self.cases, self.make, res):
            if r.get('absent'):
                continue
            events.append(f(r))
            owner.append((c, r))
        if not chk.validate('SDInputsTrace', 'SDInputsTrace.cfg', events, len(events),
                            describe=lambda i: {'case': owner[i][0], 'event': events[i],
                                                'got': {k: str(v)[:300] for k, v
                                                        in owner[i][1].items()}}):
            return False
        chk.count(**{what: len(events)})
        if events:
            chk.sample({what: owner[-1][0]})
        return True


def bodies(rng, ns, nd, sizes):
    """Positions in thousandths, some pairs close, touching or overlapping,
    none at the range of repulsion or on top of one another."""
    while True:
        a = rng.choice(sizes, ns + nd)
        x, half = [], []
        nodes = []
        for k in range(ns + nd):
            if nodes and rng.rand() < .8:
                y, b = nodes[rng.randint(len(nodes))]
                c = y + solvelab.unit(rng)*(a[k] + b)/2*rng.uniform(1.7, 2.35)
            else:
                c = rng.uniform(-3000, 3000, 3)
            if k < ns:
                x.append(np.rint(c).astype(int))
                nodes.append((x[-1], a[k]))
            else:
                h = np.rint(solvelab.unit(rng)*a[k]*rng.uniform(.9, 1.6)).astype(int)
                x.append(np.rint(c).astype(int) + h)
                half.append(h)
                nodes += [(x[-1] - h, a[k]), (x[-1] + h, a[k])]
        s = np.array([2*np.linalg.norm(n[0]-m[0])/(n[1]+m[1])
                      for i, n in enumerate(nodes) for m in nodes[:i]] + [9.])
        if s.min() > 1 and np.abs(s - 2.2).min() > 2e-3:
            return x, half, a


def posdata(x, half, a, ns):
    f = lambda v: np.array(v, dtype=float).reshape(-1, 3)/1000
    return {'sphere_sizes': a[:ns]/1000., 'sphere_positions': f(x[:ns]),
            'dumbbell_sizes': a[ns:]/1000., 'dumbbell_positions': f(x[ns:]),
            'dumbbell_deltax': 2*f(half)}


def repulsion(chk, rng, b):
    for _ in range(chk.pick(500, 4000)):
        ns, nd = int(rng.randint(0, 5)), int(rng.randint(0, 4))
        if ns + nd < 1:
            continue
        x, half, a = bodies(rng, ns, nd, [1000, 500, 1500, 100] if rng.rand() < .5 else [1000])
        p = posdata(x, half, a, ns)
        tau = int(rng.choice([20, 5, 33]))
        k = float(rng.choice([50., 1., 7.5]))
        lid = int(rng.choice([0, 0, 1])) if ns > 2 else 0
        builtin = rng.rand() < .35
        if builtin:
            tau, k, lid = 20, 50., 0
        n = lambda m: (np.zeros([m, 3]) if rng.rand() < .5 or builtin
                       else rng.randint(-20000, 20000, (m, 3)))
        before = {'F': n(ns), 'Fb': n(nd), 'Db': n(nd)}
        e = {'e': 'repulsion', 'tol': 60, 'lid': lid, 'tau': tau,
             'sp': [v.tolist() for v in x[:ns]], 'as': a[:ns].tolist(), 'ad': a[ns:].tolist(),
             'db': [{'at': v.tolist(), 'half': h.tolist()} for v, h in zip(x[ns:], half)],
             'before': {f: v.astype(int).tolist() for f, v in before.items()}}
        if builtin:
            c = {'kind': 'input', 'n': 4, 'pos': p, 'frame': int(rng.randint(0, 9)),
                 'dt': .1, 'form': 'fte' if ns else 'fts'}
        else:
            v = {f: (w*k/1e4).tolist() for f, w in before.items()}
            c = {'kind': 'repulsion_forces', 'args': {
                'strength': k, 'tau': tau, 'num_spheres': ns, 'num_dumbbells': nd,
                'sphere_positions': p['sphere_positions'],
                'dumbbell_positions': p['dumbbell_positions'],
                'dumbbell_deltax': p['dumbbell_deltax'], 'sphere_sizes': p['sphere_sizes'],
                'dumbbell_sizes': p['dumbbell_sizes'], 'num_sphere_in_each_lid': lid,
                'Fa_in': v['F'], 'Fb_in': v['Fb'], 'DFb_in': v['Db']}}

        def make(r, e=e, ns=ns, nd=nd, k=k):
            e['ok'] = 'error' not in r and all(number(r[f]) for f in ('Fa', 'Fb', 'DFb'))
            if e['ok']:
                g = lambda f, m: vlib.q(np.array(r[f], dtype=float).reshape(m, 3)/k, 1e4)
                e['after'] = {'F': g('Fa', ns), 'Fb': g('Fb', nd), 'Db': g('DFb', nd)}
            return e
        b.add(c, make)


def oscillations(chk, rng, b):
    cs = shears(chk)
    rng.shuffle(cs)
    for c in cs[:chk.pick(2500, 10**6)]:
        s = c['s']
        asked = rng.randint(-5, 5, 3)/4.
        ns = int(rng.randint(0, 4))
        e = dict(c, e='shear')
        b.add({'kind': 'oscillatory_shear', 'args': {
            'amplitude': s['num']/s['den'], 'period': s['period'], 'frameno': s['f2']/2.,
            'timestep': s['period']*s['d']/24., 'phase': s['phase']*PI/12,
            'centre_of_background_flow': asked, 'num_spheres': ns,
            'unused_axis': c['unused'], 'transpose_shear': c['transposed'],
            'opposite_direction': c['opposite']}},
              lambda r, e=e, ns=ns, asked=asked: flow(e, r, ns, asked))
    # the same as an input of the list, with springs
    for _ in range(chk.pick(150, 1000)):
        ns, nd = int(rng.randint(0, 4)), int(rng.randint(1, 4))
        x, half, a = bodies(rng, ns, nd, [1000, 100])
        half = [np.rint(solvelab.unit(rng)*rng.uniform(400, 2500)).astype(int) for _ in half]
        f2, d = int(rng.randint(0, 40)), int(2*rng.randint(1, 12))
        c = {'kind': 'input', 'n': 3, 'pos': posdata(x, half, a, ns), 'frame': f2/2.,
             'dt': 10*d/24., 'form': 'fte' if ns else 'fts'}
        e = {'e': 'shear', 'unused': 1, 'transposed': False, 'opposite': False,
             's': {'num': 1, 'den': 3, 'period': 10, 'phase': 0, 'f2': f2, 'd': d}}
        b.add(c, lambda r, e=e, ns=ns: flow(e, r, ns, [2.25, 0, 2.25]))
        e = {'e': 'spring', 'natural': 2, 'stiffness': 1, 'tol': 12,
             'db': [(2*h).tolist() for h in half]}

        def make(r, e=e):
            e['ok'] = 'error' not in r and number(r['DFb'])
            if e['ok']:
                e['Db'] = q3(r['DFb'])
            return e
        b.add(c, make)


def steady(chk, rng, b):
    for _ in range(chk.pick(200, 1000)):
        rate = int(rng.choice([10000, 3000, -25000]))
        f2, d = int(rng.randint(0, 60)), int(rng.randint(1, 100))
        ns = int(rng.randint(0, 4))
        asked = rng.randint(-5, 5, 3)/4.
        e = {'e': 'steady', 'f2': f2, 'd': d, 'rate': rate}
        if rng.rand() < .3:
            e['rate'] = 10000
            x, half, a = bodies(rng, ns, 1, [1000])
            c = {'kind': 'input', 'n': 7, 'pos': posdata(x, half, a, ns), 'frame': f2/2.,
                 'dt': d/64., 'form': 'fte' if ns else 'fts'}
            asked = np.zeros(3)
        else:
            c = {'kind': 'constant_shear', 'args': {
                'gammadot': rate/1e4, 'frameno': f2/2., 'timestep': d/64.,
                'centre_of_background_flow': asked, 'num_spheres': ns}}
        b.add(c, lambda r, e=e, ns=ns, asked=asked: flow(e, r, ns, asked))


def plain(chk, rng, b):
    """Inputs which just list values."""
    zero = lambda n: [[0, 0, 0]]*n
    for _ in range(chk.pick(120, 600)):
        ns, nd = int(rng.randint(1, 7)), int(rng.randint(0, 3))
        x, half, a = bodies(rng, ns, nd, [1000])
        n = int(rng.choice([1, 2, 5]))
        f = int(rng.randint(0, 9))
        want = {'U': zero(1), 'O': zero(1), 'Et': zero(3), 'Ot': zero(1), 'mu': [[10000]],
                'Fb': zero(nd), 'Db': zero(nd), 'bl': zero(1), 'tr': zero(1), 'T': zero(ns)}
        if n == 5:
            form = 'ufte'
            want['Ua'] = [[-10000, 0, 0]]*(ns//2) + [[10000, 0, 0]]*(ns - ns//2)
        else:
            form = 'fte'
            want['F'] = [[0, 0, -10000]]*ns
        if n == 2:
            want.update({'bl': [[-40000]*3], 'tr': [[40000]*3]})
        plainly(b, {'kind': 'input', 'n': n, 'pos': posdata(x, half, a, ns), 'frame': f,
                    'dt': .1, 'form': form}, want)
    ns = 99
    pos = {'sphere_sizes': np.ones(ns), 'sphere_positions': np.arange(3.*ns).reshape(ns, 3)}
    walls = [[-10000, 0, 0]]*45 + [[10000, 0, 0]]*45
    plainly(b, {'kind': 'input', 'n': 6, 'pos': pos, 'frame': 0, 'dt': .1, 'form': 'ufte'},
            {'Ua': walls + [[]]*9, 'F': [[]]*90 + [[100000, 0, 0]]*9})


NAMES = {'F': 'Fa', 'T': 'Ta', 'Db': 'DFb'}


def plainly(b, c, want):
    def make(r):
        e = {'e': 'plain', 'ok': 'error' not in r, 'want': want}
        if e['ok']:
            e['got'] = {}
            for f, w in want.items():
                v = r[NAMES.get(f, f)]
                if f in ('U', 'O', 'Ot', 'bl', 'tr', 'mu'):
                    v = [np.array(v).reshape(-1).tolist()]
                e['got'][f] = [q3(row) if number(row) else [] for row in list(v)]
        return e
    b.add(c, make)


def run(chk):
    chk.model('MCInputs', 'MCInputs.cfg')
    rng = chk.rng(1)
    for f in (repulsion, oscillations, steady, plain):
        b = Batch()
        f(chk, rng, b)
        if not b.judge(chk, f.__name__):
            return
