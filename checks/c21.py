"""C21: random placement never overlaps particles or leaves the region."""
import inspect
import io
import os
import sys

import numpy as np

import child
import vlib


# --- In the child ---------------------------------------------------------------

def supplied(name, args):
    """One of the repository's functions, if it takes these arguments."""
    try:
        import setups.functions_positions as m
        f = getattr(m, name)
        if set(args) <= set(inspect.signature(f).parameters):
            return f
    except (ImportError, AttributeError, TypeError, ValueError):
        pass
    return None


def one(c):
    np.random.seed(c['seed'])
    rand = np.random.rand
    if c['coarse']:
        # proposals often coincide or touch exactly
        def coarse(*n):
            v = rand(*n)
            return v if rand() < .4 else np.round(v*c['coarse'])/c['coarse']
        np.random.rand = coarse
    try:
        if c['kind'] == 'setup':
            import setups.positions as sp
            p, _ = sp.pos_setup(c['n'])
            return [np.array(v, dtype=float) for v in (p[0], p[1], p[3], p[4], p[5])]
        f = supplied(c['function'], c['args'])
        if f is None:
            return 'absent'
        r = f(**c['args'])
        return [np.array(v, dtype=float) for v in (r if isinstance(r, tuple) else (r,))]
    except BaseException as e:
        return '%s: %s' % (type(e).__name__, e)
    finally:
        np.random.rand = rand


def chunk(task):
    os.chdir(task['cwd'])
    os.makedirs('output', exist_ok=True)
    sys.stdout = io.StringIO()
    child.boot(['1', '1'])
    return [one(c) for c in task['cases']]


def ask(cases, each, timeout):
    n = max(1, len(cases)//each)
    tasks = [{'cwd': vlib.newdir('p'), 'cases': cases[k::n]} for k in range(n)]
    out = [None]*len(cases)
    for k, r in enumerate(vlib.pmap(chunk, tasks, timeout=timeout)):
        for j, i in enumerate(range(k, len(cases), n)):
            out[i] = r[j] if isinstance(r, list) else 'stuck: ' + str(r)[:300]
    return out


# --- Cases ------------------------------------------------------------------------

SIZES = [1., .5, .25, 2.]


def box(rng, flat):
    lo = rng.randint(-16, 8, 3)/2.
    hi = lo + rng.randint(16, 25, 3)/2.
    if flat:
        hi[1] = lo[1]
    return lo, hi


def present(rng, lo, hi, n):
    a = rng.choice([1., .5, .25], n)
    x = lo + rng.rand(n, 3)*(hi - lo)
    return a, np.round(x*8)/8


def volume(a, flat):
    a = np.array(a)
    return np.pi*np.sum(a**2) if flat else 4/3*np.pi*np.sum(a**3)


def room(lo, hi, flat):
    d = hi - lo
    return d[0]*d[2] if flat else np.prod(d)


def roomy(rng, lo, hi, balls, spaced=0., ways=None):
    """Whether there is space enough for all, tried out here with a margin."""
    for _ in range(3):
        x, a = [np.array(y) for y in balls[0][1]], list(balls[0][0])
        for b in balls[1]:
            for _ in range(60):
                y = [lo + rng.rand(3)*(hi - lo)]
                if ways is not None:
                    y.append(y[0] + spaced*ways(rng))
                if all(np.linalg.norm(u - v) > 1.1*(b + c) for u in y for v, c in zip(x, a)):
                    x += y
                    a += [b]*len(y)
                    break
            else:
                return False
    return True


def listed(rng, *v):
    return [x.tolist() for x in v] if rng.rand() < .3 else list(v)


def spheres(rng):
    flat = bool(rng.rand() < .5)
    lo, hi = box(rng, flat)
    a0, x0 = present(rng, lo, hi, int(rng.randint(0, 5)))
    a = []
    while len(a) < 25 and volume(a + a0.tolist(), flat) < .17*room(lo, hi, flat):
        a.append(float(rng.choice(SIZES)))
    if rng.rand() < .05:
        a = a[:rng.randint(2)]
    if not roomy(rng, lo, hi, ((a0, x0), a)):
        return spheres(rng)
    b = listed(rng, lo, hi)
    return {'kind': 'spheres', 'function': 'randomise_spheres', 'box': (lo, hi), 'flat': flat,
            'present': (a0, x0), 'sizes': a,
            'args': {'random_box_bottom_left': b[0], 'random_box_top_right': b[1],
                     'random_sphere_sizes': np.array(a), 'current_sphere_sizes': a0,
                     'current_sphere_positions': x0}}


def dumbbells(rng, kind='dumbbells'):
    flat = bool(rng.rand() < .5)
    lo, hi = box(rng, flat)
    a0, x0 = present(rng, lo, hi, int(rng.randint(0, 5)))
    dx = float(rng.choice([1., 2., 1.5, 2.5]))
    top = 1.2 if kind == 'periodic' else 3.
    a = []
    while len(a) < 14 and volume(2*a + a0.tolist(), flat) < .15*room(lo, hi, flat):
        a.append(float(rng.choice([s for s in (1., .5, .25, .1) if s < top])))
    if rng.rand() < .05:
        a = a[:rng.randint(2)]
    def way(g):
        v = g.normal(size=3)*[1, not flat, 1]
        return v/np.linalg.norm(v)
    if not roomy(rng, lo + [.8, 0 if flat else .8, .8], hi - [.8, 0 if flat else .8, .8], ((a0, x0), a), dx, way):
        return dumbbells(rng, kind)
    b = listed(rng, lo, hi)
    args = {'random_box_bottom_left': b[0], 'random_box_top_right': b[1],
            'dumbbell_sizes': np.array(a), 'dx': dx}
    if flat:
        args['phi'] = [0, np.pi][rng.randint(2)] if kind == 'periodic' else 0
        if rng.rand() < .2:
            args['theta'] = float(rng.uniform(0, 6))
    elif rng.rand() < .2:
        args['theta'] = float(rng.uniform(0, 6))
    if len(a0) or rng.rand() < .5:
        args.update({'current_sphere_sizes': a0, 'current_sphere_positions': x0})
    name = {'dumbbells': 'randomise_dumbbells',
            'periodic': 'randomise_dumbbells_periodic'}[kind]
    return {'kind': kind, 'function': name, 'box': (lo, hi), 'flat': flat,
            'present': (a0, x0), 'sizes': a, 'length': dx, 'args': args}


def quadrilateral(rng):
    while True:
        t = np.sort(rng.uniform(0, 2*np.pi, 4))
        if np.min(np.diff(np.append(t, t[0] + 2*np.pi))) > .5 and np.max(
                np.diff(np.append(t, t[0] + 2*np.pi))) < 2.6:
            break
    r = rng.uniform(6, 8)
    poly = np.round(np.array([r*np.cos(t), r*np.sin(t)]).T*100)/100
    poly = poly + rng.randint(-9, 9, 2)
    if rng.rand() < .5:
        poly = poly[::-1]
    if rng.rand() < .2:     # sides along the axes
        x, z = rng.randint(-5, 5, 2)
        poly = np.array([[x, z], [x+9, z], [x+9, z+8], [x, z+8]], dtype=float)
    s0 = float(rng.choice([1., .5]))
    n = int(rng.randint(0, 4))
    x0 = np.zeros([n, 3])
    x0[:, [0, 2]] = np.round((poly.mean(axis=0) + rng.uniform(-5, 5, (n, 2)))*8)/8
    a = rng.choice([.25, .5, .1], rng.randint(1, 9)).tolist()
    return {'kind': 'quadrilateral', 'function': 'randomise_beads_inside_quadrilateral',
            'box': (np.zeros(3), np.zeros(3)), 'flat': False, 'present': ([s0]*n, x0),
            'sizes': a, 'poly': poly,
            'args': {'quadrilateral': poly, 'dumbbell_sizes': np.array(a),
                     'current_sphere_positions': x0, 'current_sphere_size': s0}}


def q(x):
    return vlib.q(x, 1e3)


def balls(x, a):
    return [{'at': q(y), 'r': int(round(1000*b))} for y, b in zip(x, a)]


def event(c, r):
    lo, hi = c['box']
    e = {'kind': c['kind'], 'ok': not isinstance(r, str), 'flat': c['flat'], 'asked': 0,
         'box': {'lo': q(lo), 'hi': q(hi)}, 'present': balls(c['present'][1], c['present'][0]),
         'placed': [], 'length': int(round(1000*c.get('length', 0))), 'poly': [], 'hair': 0}
    if 'poly' in c:
        e['poly'] = q(c['poly'])
        e['hair'] = 40000      # two thousandths along the longest side
    if not e['ok']:
        return e
    if c['kind'] == 'setup':
        sizes, x, beads, y, d = r
        e['placed'] = balls(x.reshape(-1, 3), sizes)
        y, d = y.reshape(-1, 3), d.reshape(-1, 3)
        e['placed'] += balls(y - d/2, beads) + balls(y + d/2, beads)
        e['asked'] = len(sizes) + 2*len(beads)
    elif c['kind'] == 'spheres':
        e['placed'] = balls(r[0].reshape(-1, 3), c['sizes'])
        e['asked'] = len(c['sizes'])
        e['ok'] = len(r[0]) == len(c['sizes'])
    else:
        y, d = [v.reshape(-1, 3) for v in r]
        e['asked'] = 2*len(c['sizes'])
        e['ok'] = len(y) == len(d) == len(c['sizes'])
        for k, a in enumerate(c['sizes'][:len(y)]):
            e['placed'] += balls([y[k] - d[k]/2, y[k] + d[k]/2], [a, a])
    return e


def run(chk):
    for k in ('spheres', 'dumbbells', 'periodic'):
        chk.model('MCPlace', 'MCPlace_%s.cfg' % k)
    rng = chk.rng(1)
    cases = []
    for k in range(chk.pick(700, 5000)):
        c = [spheres, dumbbells, lambda g: dumbbells(g, 'periodic'), quadrilateral][k % 4](rng)
        cases.append(c)
    crowded = [5]*4     # the built-in set-up 5 is so full that some draws leave no room
    for n in [1, 2, 3, 4, 6, 7] + crowded:
        cases.append({'kind': 'setup', 'n': n, 'box': (np.zeros(3), np.zeros(3)),
                      'flat': False, 'present': ([], [])})
    for c in cases:
        c['seed'] = int(rng.randint(2**31 - 1))
        c['coarse'] = 0 if c['kind'] == 'setup' else int(rng.choice([0, 0, 16, 24]))
    k = len(cases) - len(crowded)
    res = ask(cases[:k], 4, 120)
    res += ['absent' if isinstance(r, str) and r.startswith('stuck') else r
            for r in ask(cases[k:], 1, 20)]
    keep = [i for i, r in enumerate(res) if not (isinstance(r, str) and r == 'absent')]
    events = [event(cases[i], res[i]) for i in keep]
    if chk.validate('SDPlaceTrace', 'SDPlaceTrace.cfg', events, len(events), describe=lambda i: {
            'case': {k: str(v)[:1500] for k, v in cases[keep[i]].items()},
            'placed': events[i]['placed'], 'result': str(res[keep[i]])[:500]}):
        chk.count(arrangements=len(events), placed=sum(len(e['placed']) for e in events))
        chk.sample({'case': {k: str(v)[:600] for k, v in cases[0].items()}})
