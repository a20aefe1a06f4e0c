"""C12: rotation markers turn rigidly with their sphere."""
import importlib

import numpy as np

import solvelab
import steplab

c10 = importlib.import_module('c10')
c11 = importlib.import_module('c11')


def worlds(rng, n, frames):
    out = []
    for k in range(n):
        shape = [(1, 0), (2, 0), (1, 1)][k//3 % 3]
        pos = solvelab.particles(rng, *shape, *solvelab.TAME[rng.randint(5)],
                                 close=.2, spread=3.)
        form = [('fte', 0, 0), ('fts', 0, 0), ('ufte', shape[0], 0),
                ('ufteu', 1, shape[1])][rng.randint(4)]
        fields, spr = steplab.random_fields(rng, pos, form)
        law = {'fields': fields, 'springs': spr, 'mu': float(rng.choice([1., 2.]))}
        w = steplab.world(pos, form, c10.SCHEMES[k % 3], law, opts=steplab.DRAG,
                          frames=int(rng.randint(1, frames+1)),
                          dt=c10.STEPS[rng.randint(len(c10.STEPS))])
        out.append(steplab.spinning(rng, w))
    return out


def boxed(rng, n, frames):
    """Spheres which leave through the sides of a box while they turn."""
    out = []
    for k in range(n):
        L = rng.choice([6., 8., 10.], 3)
        pos = {'sphere_sizes': [1., .5], 'sphere_positions':
               [rng.uniform(-.5, .5, 3)*L, rng.uniform(-.5, .5, 3)*L],
               'dumbbell_sizes': [], 'dumbbell_positions': [],
               'dumbbell_deltax': []}
        pos['sphere_sizes'] = [1., 1.]
        form = ('fte', 0, 0)
        fields, spr = steplab.random_fields(rng, pos, form, springs=False, size=6.)
        law = {'fields': fields, 'box': {'L': L.tolist(), 'rate': 0., 'flow': 0,
                                         'grad': 2}}
        w = steplab.world(pos, form, c10.SCHEMES[k % 3], law, opts=steplab.DRAG,
                          frames=frames, dt=[(1, 4), (1, 2), (2, 5)][rng.randint(3)])
        out.append(steplab.spinning(rng, w))
    return out


def run(chk):
    chk.model('MCStep', 'MCStep.cfg')
    rng = chk.rng(1)
    w = worlds(rng, chk.pick(180, 1200), 3)
    w += c11.vorticity_worlds(rng, chk.pick(24, 120), 3)
    w += boxed(rng, chk.pick(36, 200), 3)
    steplab.judge(chk, steplab.record(w), 'spinning spheres')
