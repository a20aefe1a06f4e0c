"""C09: periodic results depend only on the infinite array."""
import numpy as np

import latticelab
import vlib


def known(chk, rng):
    """Single spheres in cubic boxes (far field only, nothing else acts)."""
    probs, ns = [], list(range(5, 21, 3)) + [40]
    scales = []
    for n in ns:
        a = float(rng.choice([1., .5, 3.]))
        mu = float(rng.choice([1., 4.]))
        x = rng.uniform(0, 1, 3)*n*a
        for f in ('Fa', 'Ta'):
            vals = {'Fa': [np.zeros(3)], 'Ta': [np.zeros(3)], 'Sa': [np.zeros([3, 3])],
                    'mu': mu, 'bl': np.zeros(3), 'tr': np.ones(3)*n*a}
            k = rng.randint(3)
            vals[f][0][k] = 1
            probs.append({'pos': {'sphere_sizes': [a], 'sphere_positions': [x]},
                          'vals': vals, 'form': 'fts',
                          'settings': {'how_far_to_reproduce_gridpoints': 3}})
            scales.append((f, k, 6*np.pi*mu*a if f == 'Fa' else 8*np.pi*mu*a**3))
    res = vlib.solves(probs)
    events = []
    for j, n in enumerate(ns):
        e = {'op': 'known', 'n': n, 'tol': 5,
             'ok': all('error' not in r for r in res[2*j:2*j+2])}
        if e['ok']:
            for r, (f, k, s), name, g in zip(res[2*j:2*j+2], scales[2*j:2*j+2],
                                             ('pulled', 'turned'), ('Ua', 'Oa')):
                e[name] = vlib.qi(float(r[g][0][k]*s), 1e6)
        events.append(e)
    return chk.validate('SDLatticeTrace', 'SDLatticeTrace.cfg', events, len(events),
                        describe=lambda i: {'spacing': ns[i], 'event': events[i]})


def run(chk):
    chk.model('MCLattice', 'MCLattice.cfg')
    rng = chk.rng(1)
    if not known(chk, rng):
        return
    ch = latticelab.chains(chk, 2)
    sessions = []
    for shape, n in (((1, 0), 10), ((2, 0), 14), ((1, 1), 10), ((0, 1), 10)):
        cs = ch[shape]
        rng.shuffle(cs)
        # as many with a doubling as it takes to meet each, the rest without
        two = [c for c in cs if any(o['op'] == 'double' for o in c)]
        one = [c for c in cs if not any(o['op'] == 'double' for o in c)]
        n = chk.pick(n, 6*n)
        for c in two[:max(2, n//5)] + one[:n]:
            sessions.append(latticelab.session(
                rng, shape, c, sizes=(1.,) if rng.rand() < .7 else (1., .1)))
    latticelab.judge(chk, sessions, 'descriptions')
