"""C15: the far field is refreshed on schedule and reused in between."""
import importlib

import numpy as np

import solvelab
import steplab
import vlib

c10 = importlib.import_module('c10')
EVERY = [2, 3, 1, 4, 7]


def worlds(chk, rng, n, frames):
    """Particles which move enough in a frame for the far field of another
    configuration to be told apart."""
    out = []
    for k in range(n):
        every = EVERY[k//3 % 5]
        shape = [(2, 0), (1, 1), (3, 0), (0, 2), (2, 1)][k//6 % 5]
        form = c10.some_form(rng, shape)
        while form[0] == 'fts' and shape[0]:
            form = c10.some_form(rng, shape)
        pal = solvelab.TAME[rng.randint(2)]
        pos = solvelab.particles(rng, *shape, *pal, closest=2.6, close=.7, spread=2.)
        fields, spr = steplab.random_fields(rng, pos, form, size=.4)
        law = {'fields': fields, 'springs': spr}
        if rng.rand() < .5:
            law['flow'] = steplab.random_flow(rng, steady=True)
        out.append(steplab.world(
            pos, form, c10.SCHEMES[k % 3], law, dt=[(1, 4), (1, 8)][int(every > 4 or rng.rand() < .5)],
            frames=int(rng.randint(2, frames+1)) + (every > 4)*3, every=every,
            each=bool(k//2 % 2), tol=8))
    return out


def boxed(chk, rng, n, frames):
    """The same in a periodic box."""
    out = []
    for k in range(n):
        shape = [(2, 0), (1, 1)][k//3 % 2]
        form = [('fte', 0, 0), ('ufte', 1, 0)][rng.randint(2)]
        pos = solvelab.particles(rng, *shape, [1.], [.1], closest=2.6, close=.7,
                                 spread=2.)
        fields, spr = steplab.random_fields(rng, pos, form, springs=False)
        law = {'fields': fields, 'box': {'L': [12., 12., 12.], 'rate': 0.,
                                         'flow': 0, 'grad': 2}}
        out.append(steplab.world(
            pos, form, c10.SCHEMES[k % 3], law, dt=(1, 4), frames=frames, tol=8,
            every=EVERY[k % 2], each=bool(rng.randint(2)),
            settings={'how_far_to_reproduce_gridpoints': 1}))
    return out


def restarted(ws, rng):
    """Kill every run in some frame and continue it from its backup."""
    tasks = []
    for w in ws:
        w['settings']['save_to_temp_file_every_n_timesteps'] = 1 + int(rng.randint(2))
        w['frames'] += 1
        tasks.append(steplab.script(
            w, law={'die': max(1, w['frames'] - 1 - int(rng.randint(0, 2)))}))
    vlib.runs(tasks)
    again = []
    for w, t in zip(ws, tasks):
        temp = vlib.outputs(t['cwd'])['temp']
        w['first'] = 0
        for o in temp.values():
            w['first'] = o['centres'].shape[0] - 1
        again.append(steplab.script(w, cwd=t['cwd']))
    res = vlib.runs(again)
    return [steplab.Run(w, r if isinstance(r, dict) else {}, steplab.output(t['cwd']),
                        first=w['first']) for w, t, r in zip(ws, again, res)]


def run(chk):
    chk.model('MCStep', 'MCStep.cfg')
    rng = chk.rng(1)
    w = worlds(chk, rng, chk.pick(90, 600), chk.pick(5, 9))
    if not steplab.judge(chk, steplab.record(w), 'refreshing'):
        return
    w = worlds(chk, rng, chk.pick(45, 300), chk.pick(5, 9))
    r = restarted(w, rng)
    chk.count(restarted_later=sum(x.first > 0 for x in r))
    if not steplab.judge(chk, r, 'restarted'):
        return
    w = boxed(chk, rng, chk.pick(6, 60), chk.pick(3, 4))
    steplab.judge(chk, steplab.record(w), 'in a box')
