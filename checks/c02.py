"""C02: the response is reciprocal and dissipative."""
import numpy as np

import child
import solvelab
import vlib

TOP = 1e7


def outside(pos, lat=None):
    """Not in the region of the known finding (size ratio 100, near 2.01)."""
    nd = solvelab.nodes(pos)
    for i in range(len(nd)):
        for j in range(i):
            r = nd[i][1]/nd[j][1]
            s = 2*np.linalg.norm(nd[i][0]-nd[j][0])/(nd[i][1]+nd[j][1])
            if max(r, 1/r) > 50 and s < 2.03:
                return False
    return True


def task(p, loads):
    t = solvelab.task(p)
    ns, nd = len(p['pos']['sphere_sizes']), len(p['pos']['dumbbell_sizes'])
    t['vals'] = dict(t['vals'], **child.load_vals(loads, ns, nd))
    return t


def weights(p):
    """Loads of particles of size a are measured in a, a^2, a^2, a."""
    w = []
    for a in p['pos']['sphere_sizes']:
        w += [a]*3 + [a*a]*8
    for a in p['pos']['dumbbell_sizes']:
        w += [a]*6
    return np.array(w)


def event(f, g, rf, rg, tol):
    ok = 'error' not in rf and 'error' not in rg
    e = {'ok': ok, 'ff': [], 'gg': [], 'fg': [], 'gf': [], 'tol': tol}
    if ok:
        u, v = child.motion(rf), child.motion(rg)
        t = {'ff': f*u, 'gg': g*v, 'fg': f*v, 'gf': g*u}
        # The common unit of the mutual works; works of one load set have
        # their own, so that small ones are not lost.
        top = max(np.max(np.abs(t['fg'])), np.max(np.abs(t['gf'])),
                  abs(f @ u * (g @ v))**.5, 1e-300)
        for k in t:
            m = top if k in ('fg', 'gf') else max(np.max(np.abs(t[k])), 1e-300)
            e[k] = vlib.q(t[k], TOP/m)
    return e


def measure(chk, problems, pairs, what, tol):
    """pairs: list of (index of problem, f, g)."""
    res = vlib.solves([task(problems[k], x) for k, f, g in pairs for x in (f, g)])
    events = [event(f, g, res[2*j], res[2*j+1], tol)
              for j, (k, f, g) in enumerate(pairs)]

    def desc(i):
        k, f, g = pairs[i]
        d = solvelab.describe(problems[k])
        d.pop('prescribed')
        return {'problem': d, 'f': f.tolist(), 'g': g.tolist(),
                'motion_f': str(res[2*i])[:2000]}
    if events and chk.validate('SDWorkTrace', 'SDWorkTrace.cfg', events,
                               len(events), describe=desc):
        chk.count(solves=len(res))
        chk.sample({what: desc(len(events)-1)['problem']})
        return True
    return False


def hardest(p, m):
    """The load set that does least work for its size, and the one whose
    work on another's motion is least symmetric."""
    w = weights(p)
    a = m*np.outer(w, w)
    val, vec = np.linalg.eigh((a + a.T)/2)
    i, j = np.unravel_index(np.argmax(np.abs(a - a.T)/np.sqrt(
        np.outer(np.abs(np.diag(a)), np.abs(np.diag(a))) + 1e-300)), a.shape)
    e = np.eye(len(w))
    return vec[:, 0]*w, vec[:, -1]*w, e[i]*w, e[j]*w


def known_region(chk):
    """Two spheres of size ratio 100 with the expressions for nearly touching
    spheres used too far apart."""
    bad = []
    for s in (2.006, 2.01, 2.015, 2.02):
        pos = {'sphere_sizes': [1., .01],
               'sphere_positions': [[0., 0, 0], [s*.505, 0, 0]],
               'dumbbell_sizes': [], 'dumbbell_positions': [],
               'dumbbell_deltax': []}
        p = solvelab.problem(pos, solvelab.values(chk.rng(9), pos), ('fts', 0, 0))
        m = vlib.mobilities([solvelab.task(p)])[0]
        if 'error' in m:
            continue
        f = hardest(p, m['mobility'])[0]
        r = vlib.solves([task(p, f)])[0]
        if 'error' not in r and f @ child.motion(r) <= 0:
            bad.append(s)
    if bad:
        chk.known('two spheres of size ratio 100 at scaled distance %s: some '
                  'loads do negative work (stored near-field scalars beyond '
                  'their range)' % ', '.join(map(str, bad)))


def run(chk):
    chk.model('MCWork', 'MCWork.cfg')
    chk.assumptions.append('pairs of size ratio 100 closer than scaled '
                           'distance 2.03 are left out (open finding)')
    rng = chk.rng(1)
    shapes = [(1, 0), (2, 0), (3, 0), (4, 0), (0, 1), (0, 2), (0, 3), (1, 1),
              (2, 1), (2, 2), (1, 2), (3, 1)]
    problems = []
    for k in range(chk.pick(150, 1200)):
        while True:
            p = solvelab.random_problem(rng, *shapes[k % len(shapes)],
                                        form=('fts', 0, 0))
            if outside(p['pos']):
                break
        if rng.rand() < .3:
            p['opts'] = [{'cutoff': 1.7}, {'minf_only': True}, {'drag': True},
                         {'cutoff': 2.2}][rng.randint(4)]
        p['mu'] = float(rng.choice([1., 1., 2.5]))
        problems.append(p)
    mob = vlib.mobilities([solvelab.task(p) for p in problems])
    pairs = []
    for k, p in enumerate(problems):
        w = weights(p)
        for _ in range(2):
            pairs.append((k, rng.normal(size=len(w))*w, rng.normal(size=len(w))*w))
        if 'error' not in mob[k] and np.all(np.isfinite(mob[k]['mobility'])):
            h = hardest(p, mob[k]['mobility'])
            pairs += [(k, h[0], h[1]), (k, h[2], h[3]),
                      (k, h[0] + h[2], h[0] + h[3])]
    if not measure(chk, problems, pairs, 'work', 60):
        return
    known_region(chk)
    # Periodic boxes
    problems = []
    palettes = [((1,), (1,)), ((1, .1), (.1,)), ((1, .5), (.5,))]
    shapes = [(2, 0), (1, 1), (0, 2), (1, 0), (0, 1), (2, 1)]
    for k in range(chk.pick(24, 160)):
        p = solvelab.random_periodic(
            rng, *shapes[k % len(shapes)], form=('fts', 0, 0),
            palette=palettes[(0, 1)[k//6 % 2]], gamma=[None, .4, None, -.5][k % 4],
            flow=[0, 1, 0, 2][k//4 % 4], grad=[2, 0, 1, 0][k//4 % 4])
        if k % 5 == 4:
            p['opts'] = {'minf_only': True}
        problems.append(dict(p, settings=solvelab.FAR))
    mob = vlib.mobilities([solvelab.task(p) for p in problems])
    pairs = []
    for k, p in enumerate(problems):
        w = weights(p)
        pairs.append((k, rng.normal(size=len(w))*w, rng.normal(size=len(w))*w))
        if 'error' not in mob[k] and np.all(np.isfinite(mob[k]['mobility'])):
            h = hardest(p, mob[k]['mobility'])
            pairs += [(k, h[0], h[1]), (k, h[2], h[3])]
    measure(chk, problems, pairs, 'periodic work', 200)
