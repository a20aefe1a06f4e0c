"""C13: periodic trajectories stay in the box and do not depend on images."""
import importlib

import numpy as np

import solvelab
import steplab

c10 = importlib.import_module('c10')
STEPS = [(1, 10), (1, 4), (1, 8), (1, 5)]


def shear_flow(rate, flow, grad):
    """The background flow that shears the box, with integer coefficients
    over 16: rate must be a multiple of 1/8."""
    s = solvelab.shear(rate, flow, grad)
    return {'U': [[0, 0, 0]], 'O': [np.rint(s['Ot']*16).astype(int).tolist()],
            'E': [np.rint(s['Et']*16).astype(int).tolist()], 'c': [0, 0, 0], 'd': 16}


def pick_axes(rng):
    flow, grad = rng.permutation(3)[:2]
    return int(flow), int(grad)


def boxed(rng, k, pos, form, L, frames, size, opts, dt=None, settings=None):
    dt = dt or STEPS[rng.randint(len(STEPS))]
    flow, grad = pick_axes(rng)
    rate = [0., .25, -.5, 1., .125][rng.randint(5)]
    if form[0] == 'fts' and len(pos['sphere_sizes']):
        form = ('fte', 0, 0)       # in fts the strain rate is an answer
    fields, spr = steplab.random_fields(rng, pos, form, springs=False, size=size)
    law = {'fields': fields, 'box': {'L': list(map(float, L)), 'rate': rate,
                                     'flow': flow, 'grad': grad},
           'flow': shear_flow(rate, flow, grad)}
    if opts and c10.SCHEMES[k % 3] == 'rk4' and rng.rand() < .5:
        # A rate that grows linearly in time, which Runge-Kutta integrates
        # exactly: strain and rotation grow by 1/16 every half frame
        law['box']['bend'] = dt[1]/dt[0]/8.
        more = shear_flow(.125, flow, grad)
        law['flow']['O'] += more['O']
        law['flow']['E'] += more['E']
    law['flow']['U'] = [(rng.randint(-3, 4, 3)*2e5).tolist()]
    return steplab.world(pos, form, c10.SCHEMES[k % 3], law, opts=opts,
                         frames=frames, dt=dt,
                         settings=settings)


def place(rng, pos, L):
    pos = {k: np.array(v) for k, v in pos.items()}
    for f in ('sphere_positions', 'dumbbell_positions'):
        if len(pos[f]):
            pos[f] = np.mod(pos[f] + rng.uniform(-1, 1, 3)*L + L/2, L) - L/2
    return pos


def images(rng, w, lo=-1):
    """The same world with its particles started from other images."""
    L = np.diag(w['law']['box']['L'])
    pos = dict(w['pos'])
    for f in ('sphere_positions', 'dumbbell_positions'):
        x = np.array(pos[f], dtype=float)
        if len(x):
            x = x + rng.randint(lo, 2, x.shape) @ L
        pos[f] = x
    return dict(w, pos=pos)


def drag_worlds(rng, n, frames):
    out = []
    for k in range(n):
        shape = [(1, 0), (2, 0), (0, 1), (1, 1), (2, 2)][k//3 % 5]
        L = rng.choice([6., 8., 10.], 3)
        pos = place(rng, solvelab.particles(
            rng, *shape, *solvelab.TAME[rng.randint(2)], close=0., spread=3.), L)
        fs = solvelab.forms(*shape)
        out.append(boxed(rng, k, pos, fs[rng.randint(len(fs))], L, frames,
                         rng.choice([1., 8.]), steplab.DRAG))
    return out


def full_worlds(rng, n, frames):
    out = []
    for k in range(n):
        shape = [(2, 0), (1, 1), (0, 2)][k//3 % 3]
        p = solvelab.random_periodic(rng, *shape, form=('fts', 0, 0))
        L = np.array(p['tr']) - np.array(p['bl'])
        pos = place(rng, p['pos'], L)
        form = ('fte', 0, 0) if shape[0] else ('duf', 0, int(rng.randint(2)))
        out.append(boxed(rng, k, pos, form, L, frames, 4., {},
                         dt=STEPS[rng.randint(2)],
                         settings=solvelab.FAR))
    return out


def run(chk):
    chk.model('MCStep', 'MCStep.cfg')
    rng = chk.rng(1)
    w = drag_worlds(rng, chk.pick(120, 700), chk.pick(5, 8))
    n = len(w)
    twins = [images(rng, x) for x in w[:chk.pick(60, 350)]]
    runs = steplab.record(w + twins)
    pairs = [(i, n+i) for i in range(len(twins))]
    if not steplab.judge(chk, runs, 'drag only in boxes', pairs=pairs):
        return
    w = full_worlds(rng, chk.pick(9, 60), chk.pick(2, 3))
    n = len(w)
    w += [images(rng, x, 0) for x in w[:chk.pick(6, 60)]]
    for x in w:
        x['ttol'] = 200
    steplab.judge(chk, steplab.record(w), 'interacting in boxes',
                  pairs=[(i, n+i) for i in range(len(w)-n)])
