"""C14: fully two-dimensional runs never leave their plane."""
import importlib

import steplab

c10 = importlib.import_module('c10')
c11 = importlib.import_module('c11')


def run(chk):
    chk.model('MCStep', 'MCStep.cfg')
    rng = chk.rng(1)
    w = c10.drag_worlds(chk, rng, chk.pick(120, 800), plane=True)
    w += c11.with_flow(rng, c10.drag_worlds(chk, rng, 36, plane=True))
    if not steplab.judge(chk, steplab.record(w), 'plane'):
        return
    w = c10.full_worlds(chk, rng, chk.pick(45, 300), plane=True)
    steplab.judge(chk, steplab.record(w), 'interacting in a plane')
