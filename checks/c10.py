"""C10: each time scheme advances particles by its published formula."""
import solvelab
import steplab

SCHEMES = ['euler', 'ab2', 'rk4']
SHAPES = [(1, 0), (2, 0), (0, 1), (1, 1), (2, 1), (0, 2)]
STEPS = [(1, 10), (1, 4), (1, 8), (3, 20), (1, 2), (2, 5)]


def some_form(rng, shape):
    fs = solvelab.forms(*shape)
    return fs[rng.randint(len(fs))]


def drag_worlds(chk, rng, n, frames=4, plane=False, flow=True):
    out = []
    for k in range(n):
        shape = SHAPES[k//3 % len(SHAPES)]
        form = some_form(rng, shape)
        pos = solvelab.particles(rng, *shape, *solvelab.TAME[rng.randint(5)],
                                 close=.3, spread=2.)
        fields, spr = steplab.random_fields(rng, pos, form)
        law = {'fields': fields, 'springs': spr, 'mu': float(rng.choice([1., 1.7]))}
        if flow and rng.rand() < .5:
            law['flow'] = steplab.random_flow(rng)
        out.append(steplab.world(
            pos, form, SCHEMES[k % 3], law, dt=STEPS[rng.randint(len(STEPS))],
            frames=int(rng.randint(1, frames+1)), opts=steplab.DRAG, plane=plane))
    return out


def full_worlds(chk, rng, n, frames=3, plane=False, palettes=solvelab.TAME[:2]):
    """With hydrodynamic interactions and lubrication."""
    out = []
    for k in range(n):
        shape = [(2, 0), (1, 1), (2, 1), (0, 2), (3, 0)][k//3 % 5]
        form = some_form(rng, shape)
        while form[0] == 'fts' and shape[0]:
            form = some_form(rng, shape)
        pos = solvelab.particles(rng, *shape, *palettes[rng.randint(len(palettes))],
                                 closest=2.4, close=.7, spread=2.)
        fields, spr = steplab.random_fields(rng, pos, form, size=.3)
        law = {'fields': fields, 'springs': spr}
        if rng.rand() < .5:
            law['flow'] = steplab.random_flow(rng)
        out.append(steplab.world(pos, form, SCHEMES[k % 3], law,
                                 dt=STEPS[rng.randint(3)], frames=frames,
                                 plane=plane))
    return out


def run(chk):
    chk.model('MCStep', 'MCStep.cfg')
    rng = chk.rng(1)
    w = drag_worlds(chk, rng, chk.pick(150, 900), chk.pick(4, 8))
    if not steplab.judge(chk, steplab.record(w), 'drag only'):
        return
    w = full_worlds(chk, rng, chk.pick(45, 300), chk.pick(3, 6))
    steplab.judge(chk, steplab.record(w), 'interacting')
