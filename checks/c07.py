"""C07: separated particles move each other by the known far-field mobility."""
import numpy as np

import child
import pairlab
import solvelab
import vlib

Q = 1e6


def build(rng, kinds, a, r, e, others, scale, clear):
    """Two particles at distance r (unless it is one particle only), which may
    be beads of dumbbells, and others anywhere at least `clear` times further
    apart than touching."""
    x = [rng.uniform(-2, 2, 3)]
    x.append(x[0] + r*e)
    done = [(x[i], a[i]) for i in (0, 1)]

    def free(size, near=None, reach=12.):
        while True:
            y = (done[0][0] if near is None else near) + rng.normal(size=3)*reach
            if all(np.linalg.norm(y - z) > clear*(size + b) for z, b in done):
                done.append((y, size))
                return y
            reach *= 1.1
    pos = {'sphere_sizes': [], 'sphere_positions': [], 'dumbbell_sizes': [],
           'dumbbell_positions': [], 'dumbbell_deltax': []}
    place = []

    def add(kind, y, size, bead=None):
        if kind == 'sphere':
            pos['sphere_sizes'].append(size*scale)
            pos['sphere_positions'].append(y*scale)
            return len(pos['sphere_sizes']) - 1, 0
        bead = bead or 1 + int(rng.randint(2))
        z = free(size, y)
        d = (z - y)*(1 if bead == 1 else -1)
        pos['dumbbell_sizes'].append(size*scale)
        pos['dumbbell_positions'].append((y + z)/2*scale)
        pos['dumbbell_deltax'].append(d*scale)
        return len(pos['dumbbell_sizes']) - 1, bead
    if kinds == ('bead', 'partner'):
        d = (x[1] - x[0])
        bead = 1 + int(rng.randint(2))
        pos['dumbbell_sizes'].append(a[0]*scale)
        pos['dumbbell_positions'].append((x[0] + x[1])/2*scale)
        pos['dumbbell_deltax'].append(d*scale*(1 if bead == 1 else -1))
        place = [(0, bead), (0, 3 - bead)]
    else:
        place = [add(kinds[i], x[i], a[i]) for i in (0, 1)]
    for k in range(others):
        add(['sphere', 'bead'][rng.randint(2)], free(1.), 1.)
    return pos, place


def vector(B, pos, place, load, scale):
    """Loads on one particle, in its frame."""
    ns, nd = len(pos['sphere_sizes']), len(pos['dumbbell_sizes'])
    f = np.zeros(11*ns + 6*nd)
    n, bead = place
    if bead:
        F = B.T @ load['F']
        f[11*ns+6*n:11*ns+6*n+3] = F
        f[11*ns+6*n+3:11*ns+6*n+6] = F if bead == 2 else -F
    else:
        f[11*n:11*n+11] = pairlab.from_local(B, load['F'], load['T']*scale,
                                             load['S']*scale)
    return f


def seen(B, pos, place, v, scale, mu):
    ns = len(pos['sphere_sizes'])
    n, bead = place
    k = 8*np.pi*mu*scale
    if bead:
        w = v[11*ns+6*n:11*ns+6*n+6]
        return B @ (w[:3] + w[3:]*(1 if bead == 2 else -1))*k, np.zeros(3), np.zeros(5)
    U, O, E = pairlab.to_local(B, v[11*n:11*n+11])
    return U*k, O*k*scale, E*k*scale


KINDS = [('sphere', 'sphere'), ('sphere', 'bead'), ('bead', 'sphere'),
         ('bead', 'bead'), ('bead', 'partner')]


def cases(rng, n, lubrication):
    out = []
    for k in range(n):
        kinds = KINDS[k % 5]
        own = rng.rand() < .12 and not lubrication
        while True:
            r = int(rng.randint(3, 14))
            a = [int(x) for x in rng.choice([1, 1, 1, 2, 3, 4, 9], 2)]
            if lubrication:
                a = [1, 1] if rng.rand() < .8 else [1, int(rng.choice([1, 10]))]
                r = int(rng.randint(5, 14))
            if kinds[1] == 'partner':
                a[1] = a[0]
            if r > (2 if lubrication else 1)*(a[0] + a[1]):
                break
        load = {'F': rng.randint(-2, 3, 3), 'T': rng.randint(-2, 3, 3),
                'S': rng.randint(-2, 3, 5)}
        only = rng.randint(5)
        for j, p in enumerate('FTS'):
            if (only < 3 and only != j) or (kinds[0] == 'bead' and p != 'F'):
                load[p] = load[p]*0
        if not any(load[p].any() for p in load):
            load['F'] = np.array([1, 2, -1])
        out.append((kinds, a, r, load, own, int(rng.randint(0, 3))))
    return out


def measure(chk, rng, cs, lubrication, what):
    probs, keep = [], []
    for kinds, a, r, load, own, others in cs:
        e = solvelab.unit(rng)
        if rng.rand() < .2:
            e = np.eye(3)[rng.randint(3)]*rng.choice([-1., 1.])
        B = pairlab.frame(rng, e)
        scale = float(10**rng.uniform(-1, 1))
        mu = float(rng.choice([1., 1., .3, 20.]))
        pos, place = build(rng, kinds, [float(x) for x in a], float(r), e, others,
                           scale, 2.05 if lubrication else 1.05)
        ns, nd = len(pos['sphere_sizes']), len(pos['dumbbell_sizes'])
        f = vector(B, pos, place[0], load, scale)
        probs.append({'pos': pos, 'form': 'fts', 'minf_only': not lubrication,
                      'vals': dict(child.load_vals(f, ns, nd), mu=mu)})
        keep.append((kinds, a, r, load, own, B, scale, mu, place))
    res = vlib.solves(probs)
    events = []
    for (kinds, a, r, load, own, B, scale, mu, place), p, x in zip(keep, probs, res):
        e = {'ok': 'error' not in x, 'own': bool(own), 'r': r, 'a': a[0], 'b': a[1],
             'load': {k: load[k].tolist() for k in load}, 'tol': 5}
        target = place[0] if own else place[1]
        e['sphere'] = target[1] == 0
        if e['ok']:
            U, O, E = seen(B, p['pos'], target, child.motion(x), scale, mu)
            e['U'], e['O'], e['E'] = vlib.q(U, Q), vlib.q(O, Q), vlib.q(E, Q)
        events.append(e)

    def desc(i):
        return {'kinds': keep[i][0], 'radii': keep[i][1], 'distance': keep[i][2],
                'scale': keep[i][6], 'pos': probs[i]['pos'],
                'result': str(res[i])[:800]}
    ok = chk.validate('SDFarTrace', 'SDFarTrace.cfg', events, len(events), describe=desc)
    if ok:
        chk.count(solves=len(events))
        chk.sample({what: {k: v for k, v in desc(len(events)-1).items() if k != 'result'}})
    return ok


def run(chk):
    chk.model('MCFar', 'MCFar.cfg')
    rng = chk.rng(1)
    if measure(chk, rng, cases(rng, chk.pick(2400, 12000), False), False, 'no near field'):
        measure(chk, rng, cases(rng, chk.pick(800, 4000), True), True,
                'outside its range')
