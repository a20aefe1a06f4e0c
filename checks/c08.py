"""C08: lubrication acts on exactly the close pairs and adds up pair by pair."""
import numpy as np

import nearlab
import solvelab

CUTS = [(2, 1), (3, 2), (9, 4), (5, 4), (11, 10)]
SHAPES = [(3, 0), (2, 1), (1, 1), (0, 2), (1, 2), (2, 0), (4, 0)]


def far_enough(pos, least=2.002):
    parts = nearlab.particles(pos)
    return all(2*np.linalg.norm(x - y) >= least*(a + b)*nearlab.UNIT
               for i, (_, x, a) in enumerate(parts) for _, y, b in parts[:i])


def crowd(rng, shape, palette, **kw):
    while True:
        pos = nearlab.rounded(solvelab.particles(rng, *shape, *palette, **kw))
        if far_enough(pos):
            return pos


def open_worlds(rng, n):
    out = []
    for k in range(n):
        pal = solvelab.TAME[rng.randint(len(solvelab.TAME))]
        pos = crowd(rng, SHAPES[k % len(SHAPES)], pal, close=.8,
                    closest=float(rng.choice([2.01, 2.1, 2.4])), spread=1.5)
        out.append(nearlab.World(rng, pos, CUTS[rng.randint(5)],
                                 mu=float(rng.choice([1., 3.])),
                                 bases=('far', 'drag') if k % 3 == 0 else ('far',)))
    return out


def edges(rng):
    """Pairs exactly at the cutoff, just inside it and just outside."""
    out = []
    for cut, r in (((2, 1), 4.), ((3, 2), 3.), ((9, 4), 4.5), ((5, 4), 2.5)):
        for off in (-.01, 0., .01):
            for ax in range(3):
                d = np.zeros(3)
                d[ax] = (r + off)*rng.choice([-1, 1])
                pos = {'sphere_sizes': [1., 1.], 'sphere_positions': [np.zeros(3), d],
                       'dumbbell_sizes': [], 'dumbbell_positions': [],
                       'dumbbell_deltax': []}
                if ax == 1:
                    pos = {'sphere_sizes': [1.], 'sphere_positions': [np.zeros(3)],
                           'dumbbell_sizes': [1.], 'dumbbell_positions': [d*4],
                           'dumbbell_deltax': [d*6]}
                out.append(nearlab.World(rng, pos, cut))
    return out


def boxes(rng, n, cheap):
    """Neighbours across the sides of (sheared) boxes."""
    out = []
    while len(out) < n:
        k = len(out)
        cut = CUTS[rng.randint(5)]
        r = 2*cut[0]/cut[1]
        L = np.round(rng.uniform(3.05, 3.8, 3)*r*100).astype(int)
        flow, grad = [(0, 2), (0, 1), (1, 2), (2, 0), (1, 0), (2, 1)][rng.randint(6)]
        tilt = 0 if k % 3 == 0 else int(rng.uniform(-1.4, 1.4)*L[grad])
        sizes = [1.]*2 if rng.rand() < .7 else [1., .1]
        shape = [(2, 0), (1, 1), (2, 1), (3, 0)][k % (3 if cheap else 4)]
        xs = [np.round(rng.uniform(-.5, .5, 3)*L).astype(int)]
        a = [sizes[0]]
        # others beside an image of the first
        bead = .1 if rng.rand() < .3 else 1.
        bad = False
        for j in range(1, shape[0] + shape[1]):
            b = sizes[j % 2] if j < shape[0] else bead
            nshift = rng.randint(-1, 2, 3)
            d = solvelab.unit(rng)*rng.uniform(1.02, cut[0]/cut[1]*1.15)*(a[0] + b)*100
            y = xs[0] + nearlab.shifted(L, tilt, flow, grad, np.round(d).astype(int), nshift)
            xs.append(y)
            a.append(b)
        pos = {'sphere_sizes': a[:shape[0]],
               'sphere_positions': [x/100. for x in xs[:shape[0]]],
               'dumbbell_sizes': a[shape[0]:], 'dumbbell_positions': [],
               'dumbbell_deltax': []}
        for x, b in zip(xs[shape[0]:], a[shape[0]:]):
            dx = np.round(solvelab.unit(rng)*rng.uniform(2.1, 2.9)*b*100)/100.
            pos['dumbbell_deltax'].append(dx)
            pos['dumbbell_positions'].append(x/100. + dx/2)
        parts = nearlab.particles(pos)
        lat = range(-2, 3)
        for i, (_, x, s) in enumerate(parts):
            for _, y, t in parts[:i]:
                best = min(np.linalg.norm(nearlab.shifted(L, tilt, flow, grad, x - y, (p, q, w)))
                           for p in lat for q in lat for w in lat)
                bad = bad or 2*best < 2.005*(s + t)*100
        if bad:
            continue
        out.append(nearlab.World(
            rng, pos, cut, box={'L': L.tolist(), 'flow': flow, 'grad': grad, 'tilt': tilt},
            settings={'how_far_to_reproduce_gridpoints': 1}, nmotions=1,
            bases=('far',) if k % 4 else ('far', 'drag')))
    return out


def run(chk):
    chk.model('MCNear', 'MCNear.cfg')
    rng = chk.rng(1)
    if not nearlab.judge(chk, edges(rng), 'at the cutoff'):
        return
    if not nearlab.judge(chk, open_worlds(rng, chk.pick(180, 1200)), 'unbounded'):
        return
    nearlab.judge(chk, boxes(rng, chk.pick(70, 400), not chk.thorough), 'periodic')
