"""C05: results scale with size, viscosity and load as Stokes flow requires."""
import solvelab


def combination(rng, make):
    """Two loads of the same particles, and a sum of them."""
    p = make()
    q = dict(p, full=solvelab.values(rng, p['pos']))
    k, k2 = [(1, 1), (1, -1), (2, 1), (-1, 3)][rng.randint(4)]
    o = {'op': 'combine', 'k': k, 'k2': k2, 'other': q, 'from': 0, 'from2': 1}
    return [(p, {'op': 'base'}), (q, {'op': 'base'}), (solvelab.change(p, o), o)]


def options(rng, p):
    if rng.rand() < .25:
        p['opts'] = [{'cutoff': 1.7}, {'minf_only': True},
                     {'drag': True}][rng.randint(3)]
    p['mu'] = float(rng.choice([1., 1., .5, 2.5]))
    return p


def run(chk):
    chk.model('MCSolve', 'MCSolve.cfg')
    rng = chk.rng(1)
    shapes = [(1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (1, 1), (2, 2), (3, 1)]
    ch = solvelab.chains(chk, 'scale', shapes, 2)
    sessions = []
    for shape in shapes:
        for ops in ch[shape]*chk.pick(1, 6):
            p = options(rng, solvelab.random_problem(rng, *shape))
            if rng.rand() < .3 and shape[0]:
                p = options(rng, solvelab.random_problem(
                    rng, *shape, form=('fts', 0, 0)))
            sessions.append((p, ops))
    if not solvelab.play(chk, sessions, 'scaling'):
        return
    groups = []
    for k in range(chk.pick(160, 1000)):
        shape = shapes[k % len(shapes)]
        groups.append(combination(rng, lambda: options(
            rng, solvelab.random_problem(rng, *shape))))
    if not solvelab.judge(chk, groups, None, 'superposition'):
        return
    # Periodic boxes
    sessions, groups = [], []
    ch = solvelab.chains(chk, 'scale', [(2, 0)], 1)[2, 0]
    for k in range(chk.pick(4, 16)):
        for j, ops in enumerate(ch):
            shape = [(2, 0), (1, 1), (0, 2), (1, 0), (0, 1)][(k+j) % 5]
            gamma = [None, .4, .6][(k+j//2) % 3]
            palette = [((1,), (1,)), ((1, .1), (.1,))][(k+j//3) % 2]
            sessions.append((solvelab.random_periodic(
                rng, *shape, gamma=gamma, palette=palette,
                mu=float(rng.choice([1., 2.5]))), ops))
            if j % 3 == 0:
                groups.append(combination(rng, lambda: solvelab.random_periodic(
                    rng, *shape, gamma=gamma, palette=palette)))
    solvelab.play(chk, sessions, 'periodic scaling') and solvelab.judge(
        chk, groups, None, 'periodic superposition')
