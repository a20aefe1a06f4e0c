"""Random Stokes problems for the real solver, the changes of SDSolve made to
them, and their answers as integers for SDSolveTrace."""
import json
import re

import numpy as np

import vlib

FIELDS = {'F': 'Fa', 'T': 'Ta', 'S': 'Sa', 'U': 'Ua', 'O': 'Oa', 'E': 'Ea',
          'Fb': 'Fb', 'Db': 'DFb', 'Ub': 'Ub', 'Hb': 'HalfDUb'}
SPHERE = ('F', 'T', 'S', 'U', 'O', 'E')
LOADS = ('F', 'T', 'S', 'Fb', 'Db')
FULL = 4e7
EPS = np.zeros([3, 3, 3])
EPS[0, 1, 2] = EPS[1, 2, 0] = EPS[2, 0, 1] = 1
EPS[0, 2, 1] = EPS[2, 1, 0] = EPS[1, 0, 2] = -1


# --- Particles ---------------------------------------------------------------

def unit(rng):
    v = rng.normal(size=3)
    return v/np.linalg.norm(v)


def particles(rng, ns, nd, sizes=(1,), beads=(1,), close=.5, closest=2.05,
              spread=7., cutoff=2.):
    """Particles without overlaps. Each new one is put near an earlier one:
    with probability `close` inside the lubrication range."""
    while True:
        nodes = []      # (x, a)

        def fits(x, a, extra=()):
            for y, b in list(nodes) + list(extra):
                s = 2*np.linalg.norm(x-y)/(a+b)
                if s < closest or abs(s-2*cutoff) < 1e-4:
                    return False
            return True

        def near(a):
            if not nodes:
                return rng.uniform(-1, 1, 3)
            y, b = nodes[rng.randint(len(nodes))]
            if rng.rand() < close:
                s = closest + (2*cutoff-closest)*rng.rand()**2
            else:
                s = 2*cutoff + rng.rand()*spread
            return y + unit(rng)*s*(a+b)/2

        ss, sp, ds, dp, dd = [], [], [], [], []
        ok = True
        for _ in range(ns):
            a = sizes[rng.randint(len(sizes))]
            for _ in range(200):
                x = near(a)
                if fits(x, a):
                    break
            else:
                ok = False
                break
            nodes.append((x, a))
            ss.append(a)
            sp.append(x)
        for _ in range(nd if ok else 0):
            a = beads[rng.randint(len(beads))]
            for _ in range(200):
                x = near(a)
                if not fits(x, a):
                    continue
                d = unit(rng)*a*(closest + rng.rand()*rng.choice([2, 6]))
                if rng.rand() < .5:
                    d = -d
                if fits(x+d, a, [(x, a)]):
                    break
            else:
                ok = False
                break
            nodes += [(x, a), (x+d, a)]
            ds.append(a)
            dp.append(x+d/2)
            dd.append(d)
        if ok:
            return {'sphere_sizes': ss, 'sphere_positions': sp,
                    'dumbbell_sizes': ds, 'dumbbell_positions': dp,
                    'dumbbell_deltax': dd}


PALETTES = [((1,), (1,)), ((1,), (.1,)), ((1, .1), (.1,)), ((1, 10), (1,)),
            ((1, .01), (.1,)), ((1, .1, .01), (.01,)), ((.5,), (.5,)),
            ((2, .2), (.2,)), ((1, 10), (.1, 1))]


# Those whose velocities can be prescribed without losing many digits
TAME = [PALETTES[i] for i in (0, 1, 2, 6, 7)]


def tensor(rng):
    e = rng.normal(size=(3, 3))
    e = e + e.T
    return e - np.eye(3)*np.trace(e)/3


def values(rng, pos):
    """A full random set of values, from which each form takes its own."""
    ns, nd = len(pos['sphere_sizes']), len(pos['dumbbell_sizes'])
    a = np.array(pos['sphere_sizes']).reshape(-1, 1)
    b = np.array(pos['dumbbell_sizes']).reshape(-1, 1)
    n = lambda k: rng.normal(size=(k, 3))
    ten = lambda w: np.array([tensor(rng)*x for x in w]).reshape(-1, 3, 3)
    return {'F': n(ns)*a, 'T': n(ns)*a**2, 'S': ten(a[:, 0]**2), 'U': n(ns),
            'O': n(ns)/a, 'E': ten(1/a[:, 0]), 'Fb': n(nd)*b, 'Db': n(nd)*b,
            'Ub': n(nd), 'Hb': n(nd)}


def prescribed(form, ns, nd):
    """{field: indices prescribed} for a form (name, fixed spheres, fixed
    dumbbells)."""
    name, ks, kd = form
    S, D = list(range(ns)), list(range(nd))
    if name == 'fts':
        return {'F': S, 'T': S, 'S': S, 'Fb': D, 'Db': D}
    if name == 'fte':
        return {'F': S, 'T': S, 'E': S, 'Fb': D, 'Db': D}
    if name == 'ufte':
        return {'U': S[:ks], 'F': S[ks:], 'T': S, 'E': S, 'Fb': D, 'Db': D}
    if name == 'ufteu':
        return {'U': S[:ks], 'F': S[ks:], 'T': S, 'E': S, 'Ub': D[:kd],
                'Hb': D[:kd], 'Fb': D[kd:], 'Db': D[kd:]}
    if name == 'duf':
        return {'Ub': D[:kd], 'Hb': D[:kd], 'Fb': D[kd:], 'Db': D[kd:]}
    raise ValueError(name)


def forms(ns, nd):
    if ns == 0:
        return [('fts', 0, 0)] + [('duf', 0, k) for k in range(nd+1)]
    return ([('fts', 0, 0), ('fte', 0, 0)]
            + [('ufte', k, 0) for k in range(ns+1)]
            + [('ufteu', k, m) for k in range(ns+1) for m in range(nd+1)])


def problem(pos, full, form, **kw):
    """full: complete values; those which the form prescribes are used."""
    return dict({'pos': pos, 'full': full, 'form': tuple(form), 'mu': 1.,
                 'opts': {}}, **kw)


def task(p):
    """As child.solve wants it."""
    ns, nd = len(p['pos']['sphere_sizes']), len(p['pos']['dumbbell_sizes'])
    vals = {'mu': p['mu']}
    for k in ('bl', 'tr', 'Ot', 'Et', 'U_inf', 'O_inf', 'centre'):
        if k in p:
            vals[k] = p[k]
    for f, idx in prescribed(p['form'], ns, nd).items():
        rows = [None]*(ns if f in SPHERE else nd)
        for i in idx:
            rows[i] = p['full'][f][i]
        vals[FIELDS[f]] = rows
    t = {'pos': p['pos'], 'vals': vals, 'form': p['form'][0]}
    t.update(p['opts'])
    if p.get('settings'):
        t['settings'] = p['settings']
    return t


# --- Changes -----------------------------------------------------------------

def change(p, o):
    """The problem p after the change o (an operation of SDSolve)."""
    q = dict(p, pos={k: np.array(v, dtype=float) for k, v in p['pos'].items()},
             full={k: np.array(v, dtype=float) for k, v in p['full'].items()})
    P, X = q['pos'], q['full']
    for k in ('sphere_positions', 'dumbbell_positions', 'dumbbell_deltax'):
        P[k] = P[k].reshape(-1, 3)
    for f in X:
        X[f] = X[f].reshape((-1, 3, 3) if f in 'SE' else (-1, 3))
    op = o['op']
    box = 'bl' in p
    if op == 'rotate':
        m = np.array(o['m'], dtype=float)/o['d']
        s = o['s']
        for k in ('sphere_positions', 'dumbbell_positions', 'dumbbell_deltax'):
            P[k] = P[k] @ m.T
        for f in X:
            if f in ('S', 'E'):
                X[f] = m @ X[f] @ m.T
            else:
                X[f] = X[f] @ m.T*(s if f in ('T', 'O') else 1)
        if box:
            a, b = m @ p['bl'], m @ p['tr']
            q['bl'], q['tr'] = np.minimum(a, b), np.maximum(a, b)
            if 'Et' in p:
                q['Et'] = m @ p['Et'] @ m.T
                q['Ot'] = s*(m @ p['Ot'])
    elif op == 'translate':
        for k in ('sphere_positions', 'dumbbell_positions'):
            P[k] = P[k] + np.array(o['t'], dtype=float)
        if box:
            q['bl'], q['tr'] = p['bl'] + o['t'], p['tr'] + o['t']
    elif op == 'spheres':
        i = np.array(o['p'], dtype=int) - 1
        for k in ('sphere_sizes', 'sphere_positions'):
            P[k] = P[k][i]
        for f in SPHERE:
            X[f] = X[f][i]
    elif op == 'dumbbells':
        i = np.array(o['p'], dtype=int) - 1
        for k in ('dumbbell_sizes', 'dumbbell_positions', 'dumbbell_deltax'):
            P[k] = P[k][i]
        for f in ('Fb', 'Db', 'Ub', 'Hb'):
            X[f] = X[f][i]
    elif op == 'swap':
        i = np.array(sorted(o['w']), dtype=int) - 1
        P['dumbbell_deltax'][i] *= -1
        for f in ('Db', 'Hb'):
            X[f][i] *= -1
    elif op in ('length', 'shrink'):
        k = float(o['k']) if op == 'length' else 1./o['k']
        for f in P:
            P[f] = P[f]*k
        for f, n in (('F', 1), ('Fb', 1), ('Db', 1), ('T', 2), ('S', 2),
                     ('O', -1), ('E', -1)):
            X[f] = X[f]*k**n
        if box:
            q['bl'], q['tr'] = p['bl']*k, p['tr']*k
    elif op == 'viscosity':
        q['mu'] = p['mu']*o['k']
        for f in LOADS:
            X[f] = X[f]*o['k']
    elif op == 'load':
        for f in X:
            X[f] = X[f]*o['k']
    elif op == 'combine':
        for f in X:
            X[f] = o['k']*X[f] + o['k2']*np.array(o['other']['full'][f]).reshape(X[f].shape)
    elif op == 'drop':
        for k in ('sphere_sizes', 'sphere_positions'):
            P[k] = P[k][:o['ns']]
        for k in ('dumbbell_sizes', 'dumbbell_positions', 'dumbbell_deltax'):
            P[k] = P[k][:o['nd']]
        for f in X:
            X[f] = X[f][:o['ns'] if f in SPHERE else o['nd']]
    elif op in ('form', 'again'):
        pass
    else:
        raise ValueError(op)
    return q


# --- Answers as integers -------------------------------------------------------

def scales(answers):
    """Units for each field, common to the answers of one session."""
    m = {}
    for f, g in FIELDS.items():
        m[f] = max([float(np.max(np.abs(a[g]))) for a in answers
                    if 'error' not in a and a[g].size
                    and np.all(np.isfinite(a[g]))] or [0.])
    for group in (LOADS, [f for f in FIELDS if f not in LOADS]):
        top = max(m[f] for f in group) or 1.
        for f in group:
            m[f] = FULL/max(m[f], 1e-3*top)
    return m


def record(a, sc):
    return {f: vlib.q(a[g], sc[f]) for f, g in FIELDS.items()}


def event(op, p, a, sc, tol=3, **kw):
    """One solve as an event. op: dict with 'op'."""
    ns, nd = len(p['pos']['sphere_sizes']), len(p['pos']['dumbbell_sizes'])
    e = {k: v for k, v in op.items() if k != 'other'}
    e.update({'ns': ns, 'nd': nd, 'tol': tol, 'kept': True, 'given': {},
              'ok': 'error' not in a, 'ans': {f: [] for f in FIELDS}})
    if e['ok']:
        e['ans'] = record(a, sc)
        given = {}
        for f, idx in prescribed(p['form'], ns, nd).items():
            rows = [[] for _ in range(ns if f in SPHERE else nd)]
            for i in idx:
                rows[i] = vlib.q(p['full'][f][i], sc[f])
            if idx:
                given[f] = rows
        e['given'] = given
    e.update(kw)
    return e


def tolerance(p):
    """In units of the quantisation. Prescribing velocities mixes resistances
    and mobilities in one matrix, which for large particles costs digits."""
    if p['form'][0] in ('fts', 'duf'):
        return 30 if 'bl' in p else 3
    a = max(list(p['pos']['sphere_sizes']) + list(p['pos']['dumbbell_sizes']))
    return int(400*max(1., a)**2)


def describe(p, a=None):
    d = {'form': p['form'], 'mu': p['mu'],
         'pos': {k: np.array(v).tolist() for k, v in p['pos'].items()},
         'opts': {k: str(v)[:50] for k, v in p['opts'].items()},
         'prescribed': {FIELDS[f]: np.array(v).tolist()
                        for f, v in p['full'].items()
                        if f in prescribed(p['form'], 9, 9)}}
    for k in ('bl', 'tr', 'Ot', 'Et', 'settings'):
        if k in p:
            d[k] = np.array(p[k]).tolist() if k != 'settings' else p[k]
    if a is not None:
        d['answer'] = a['error'] if 'error' in a else {
            g: np.array(a[g]).tolist() for g in FIELDS.values()}
    return d


# --- Sessions ------------------------------------------------------------------

def chains(chk, cls, shapes, length):
    """All chains of changes of a class, enumerated by TLC."""
    cfg = open(vlib.SPEC + '/GenSolve.cfg').read()
    cfg = cfg.replace('MaxOps = 2', 'MaxOps = %d' % length)
    cfg = cfg.replace('"frame"', '"%s"' % cls)
    cfg = cfg.replace('Shapes = {}', 'Shapes = {%s}' % ', '.join(
        str(10*a+b) for a, b in shapes))
    r = vlib.tlc('GenSolve', cfg, workers=4)
    if not r.ok:
        print(r.text[-3000:])
        raise vlib.Infra('GenSolve failed')
    chk.count(states=r.distinct, transitions=r.generated)
    out = {}
    for m in re.finditer(r'^"VCH (.*)"$', r.text, re.M):
        o = json.loads(m.group(1).replace('\\"', '"'))
        out.setdefault((o['shape']//10, o['shape'] % 10), []).append(o['chain'])
    for v in out.values():
        v.sort(key=lambda c: json.dumps(c))
    return out


def play(chk, sessions, what, settings=None):
    """sessions: list of (problem, [op, ...]); each op is applied to the
    result of the previous one. Solves everything and validates it."""
    groups = []
    for p, ops in sessions:
        g = [(p, {'op': 'base'})]
        for j, o in enumerate(ops):
            g.append((change(g[-1][0], o), dict(o, **{'from': j})))
        groups.append(g)
    return judge(chk, groups, None, what, settings)


def judge(chk, groups, answers, what, settings=None):
    """groups: lists of (problem, op), where op may say which earlier members
    of the group its law starts from ('from', 'from2'). Solves what has not
    been solved and validates it."""
    todo = [task(q) for g in groups for q, o in g if 'answer' not in q]
    res = iter(vlib.solves(todo, settings) if todo else [])
    events, where = [], []
    for g in groups:
        ans = [q['answer'] if 'answer' in q else next(res) for q, o in g]
        sc = scales(ans)
        tol = max(tolerance(q) for q, o in g)
        lo = len(events)
        for j, (q, o) in enumerate(g):
            link = {k: lo + o[k] + 1 for k in ('from', 'from2') if k in o}
            events.append(event(dict(o, **link), q, ans[j], sc,
                                tol=o.get('tol') or tol,
                                kept=bool(ans[j].get('kept', True))))
            k = o.get('from')
            where.append((q, ans[j], None if k is None else g[k][0],
                          None if k is None else ans[k], o))
    return finish(chk, events, where, len(groups), what)


def finish(chk, events, where, n, what):
    def desc(i):
        q, a, q0, a0, o = where[i]
        return {'op': {k: v for k, v in o.items() if k != 'other'},
                'after': describe(q, a),
                'before': describe(q0, a0) if q0 is not None else None}
    for lo, part in split(events):
        chk.cov['solves'] = chk.cov.get('solves', 0) + len(part)
        if not chk.validate('SDSolveTrace', 'SDSolveTrace.cfg', part, 0,
                            describe=lambda i: desc(lo+i)):
            return False
    chk.count(traces_validated_against_impl=n)
    if where:
        chk.sample({what: {'op': {k: v for k, v in where[-1][4].items()
                                  if k != 'other'},
                           'problem': describe(where[-1][0])}})
    return True


def split(events, size=2500):
    """Parts of a trace which refer only to themselves."""
    lo = 0
    while lo < len(events):
        hi = min(lo + size, len(events))
        while hi < len(events) and events[hi]['op'] != 'base':
            hi += 1
        part = [dict(e) for e in events[lo:hi]]
        for e in part:
            for k in ('from', 'from2'):
                if k in e:
                    e[k] -= lo
        yield lo, part
        lo = hi


def random_problem(rng, ns, nd, form=None, palette=None, **kw):
    if palette is None:
        palette = PALETTES[rng.randint(len(PALETTES))]
        if form is None and palette not in TAME:
            form = ('fts', 0, 0)
        elif form is not None and form[0] not in ('fts', 'duf'):
            palette = TAME[rng.randint(len(TAME))]
    closest = 2.0002 if rng.rand() < .06 else 2.02
    pos = particles(rng, ns, nd, *palette, closest=closest,
                    close=rng.choice([0., .5, .8]))
    if form is None:
        fs = forms(ns, nd)
        form = fs[rng.randint(len(fs))]
    return problem(pos, values(rng, pos), form, **kw)


# --- Periodic boxes ------------------------------------------------------------

FAR = {'how_far_to_reproduce_gridpoints': 3}


def lattice(p):
    """Rows: the lattice vectors of the (sheared) box."""
    L = np.diag(np.array(p['tr'], dtype=float) - np.array(p['bl'], dtype=float))
    if 'Et' not in p:
        return L
    add = np.cross(p['Ot'], L) + L @ np.array(p['Et']).T
    return L + add


def shear(gamma, flow=0, grad=2):
    """Accumulated strain and rotation of a simple shear of amount gamma."""
    g = np.zeros([3, 3])
    g[flow, grad] = gamma
    w = g[flow, grad]*np.array([EPS[k, grad, flow] for k in range(3)])/2
    return {'Et': (g+g.T)/2, 'Ot': w}


def nodes(pos):
    x = [(np.array(y), a) for y, a in zip(pos['sphere_positions'], pos['sphere_sizes'])]
    for s in (-.5, .5):
        x += [(np.array(y)+s*np.array(d), a) for y, d, a in zip(
            pos['dumbbell_positions'], pos['dumbbell_deltax'], pos['dumbbell_sizes'])]
    return x


def gaps(pos, lat=None, reach=2):
    """All scaled distances between nodes, images included."""
    nd = nodes(pos)
    out = []
    shifts = [np.zeros(3)]
    if lat is not None:
        r = range(-reach, reach+1)
        shifts = [np.array([i, j, k]) @ lat for i in r for j in r for k in r]
    for i in range(len(nd)):
        for j in range(i, len(nd)):
            for t in shifts:
                if i == j and not t.any():
                    continue
                out.append(2*np.linalg.norm(nd[i][0]-nd[j][0]+t)/(nd[i][1]+nd[j][1]))
    return np.array(out)


def random_periodic(rng, ns, nd, form=None, palette=((1,), (1,)), side=12.,
                    gamma=None, flow=0, grad=2, cube=False, **kw):
    while True:
        pos = particles(rng, ns, nd, *palette, closest=2.02,
                        close=rng.choice([0., .5, .8]), spread=4.)
        L = np.array([side]*3) + (0 if cube else rng.randint(0, 3, 3))
        bl = rng.uniform(-3, 3, 3)
        p = {'bl': bl, 'tr': bl + L}
        if gamma is not None:
            p.update(shear(gamma*L[flow]/L[grad], flow, grad))
        lat = lattice(p)
        move = bl + rng.uniform(0, 1, 3) @ lat
        pos = {k: np.array(v) for k, v in pos.items()}
        for k in ('sphere_positions', 'dumbbell_positions'):
            if len(pos[k]):
                x = pos[k] + move - bl
                pos[k] = bl + np.mod(x @ np.linalg.inv(lat), 1) @ lat
        g = gaps(pos, lat)
        if g.min() > 2.02 and np.abs(g-4).min() > 1e-4:
            break
    if form is None:
        fs = forms(ns, nd)
        form = fs[rng.randint(len(fs))]
    return problem(pos, values(rng, pos), form, **dict(p, **kw))
