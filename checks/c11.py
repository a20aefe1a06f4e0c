"""C11: background flow carries every particle as superposition requires."""
import importlib

import numpy as np

import solvelab
import steplab

c10 = importlib.import_module('c10')


def with_flow(rng, worlds, steady=False):
    for w in worlds:
        w['law']['flow'] = steplab.random_flow(rng, steady)
    return worlds


def free_worlds(rng, n, frames):
    """Lone particles without loads."""
    out = []
    for k in range(n):
        shape = [(1, 0), (0, 1)][k//3 % 2]
        pos = solvelab.particles(rng, *shape, *solvelab.TAME[rng.randint(5)])
        x = rng.uniform(-3, 3, 3)
        for f in ('sphere_positions', 'dumbbell_positions'):
            if len(pos[f]):
                pos[f] = [np.array(y) + x for y in pos[f]]
        fs = [f for f in solvelab.forms(*shape) if f[1] == 0 and f[2] == 0
              and (f[0] != 'fts' or not shape[0])]
        form = fs[rng.randint(len(fs))]
        names = {'Fa': shape[0], 'Ta': shape[0], 'Fb': shape[1], 'DFb': shape[1]}
        law = {'fields': {g: [[[0, 0, 0]]]*m for g, m in names.items()},
               'flow': steplab.random_flow(rng, rng.rand() < .5)}
        out.append(steplab.world(
            pos, form, c10.SCHEMES[k % 3], law, frames=frames,
            dt=c10.STEPS[rng.randint(len(c10.STEPS))], free=True,
            opts={} if rng.rand() < .7 else steplab.DRAG))
    return out


def vorticity_worlds(rng, n, frames):
    """A lone sphere at the centre of the flow turns with it."""
    out = []
    for k in range(n):
        x = rng.randint(-8, 9, 3)*.25
        pos = {'sphere_sizes': [float(rng.choice([1., .5, 2.]))],
               'sphere_positions': [x], 'dumbbell_sizes': [],
               'dumbbell_positions': [], 'dumbbell_deltax': []}
        fl = dict(steplab.NOFLOW, c=(x*steplab.Q).tolist())
        if rng.rand() < .5:
            fl['E'] = steplab.random_flow(rng)['E']
        law = {'fields': {'Fa': [[[0, 0, 0]]], 'Ta': [[[0, 0, 0]]]}, 'flow': fl}
        w = steplab.world(pos, [('fte', 0, 0), ('ufte', 0, 0)][k % 2],
                          c10.SCHEMES[k//2 % 3], law, frames=frames, free=True,
                          dt=c10.STEPS[rng.randint(len(c10.STEPS))])
        out.append(steplab.spinning(rng, w, by='flow'))
    return out


def run(chk):
    chk.model('MCStep', 'MCStep.cfg')
    rng = chk.rng(1)
    w = with_flow(rng, c10.drag_worlds(chk, rng, chk.pick(120, 800)))
    w += free_worlds(rng, chk.pick(48, 240), 3)
    w += vorticity_worlds(rng, chk.pick(36, 200), 3)
    if not steplab.judge(chk, steplab.record(w), 'flows'):
        return
    w = with_flow(rng, c10.full_worlds(chk, rng, chk.pick(45, 300)))
    steplab.judge(chk, steplab.record(w), 'interacting in flows')
