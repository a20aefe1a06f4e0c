"""Descriptions of infinite arrays (SDLattice), solved by the real code."""
import json
import re

import numpy as np

import solvelab
import vlib

UNIT = 128.         # positions are exact
SF = ['F', 'T', 'S', 'U', 'O', 'E']
DF = ['Fb', 'Db', 'Ub', 'Hb']


def chains(chk, length):
    cfg = open(vlib.SPEC + '/GenLattice.cfg').read().replace(
        'MaxOps = 2', 'MaxOps = %d' % length)
    r = vlib.tlc('GenLattice', cfg, workers=4)
    if not r.ok:
        print(r.text[-2000:])
        raise vlib.Infra('GenLattice failed')
    chk.count(states=r.distinct, transitions=r.generated)
    out = {}
    for m in re.finditer(r'^"VCH (.*)"$', r.text, re.M):
        o = json.loads(m.group(1).replace('\\"', '"'))
        out.setdefault((o['ns'], o['nd']), []).append(o['chain'])
    for v in out.values():
        v.sort(key=lambda c: json.dumps(c))
    return out


def vec(d, n):
    v = np.array(n)*np.array(d['L'])
    v[d['flow']-1] += n[d['grad']-1]*d['tilt']
    return v


def change(d, o):
    q = json.loads(json.dumps(d))
    add = lambda x, y: [int(a+b) for a, b in zip(x, y)]
    if o['op'] == 'image':
        q['sp'][o['k']-1] = add(q['sp'][o['k']-1], vec(d, o['n']))
    elif o['op'] == 'dumbbell':
        q['db'][o['k']-1] = [add(x, vec(d, o['n'])) for x in q['db'][o['k']-1]]
    elif o['op'] == 'bead':
        b = q['db'][o['k']-1]
        b[o['b']-1] = add(b[o['b']-1], vec(d, o['n']))
    elif o['op'] == 'origin':
        q['o'] = add(q['o'], o['t'])
    elif o['op'] == 'whole':
        q['tilt'] += o['m']*d['L'][d['flow']-1]
    elif o['op'] == 'double':
        a = o['ax']-1
        v = vec(d, np.eye(3, dtype=int)[a])
        q['L'][a] *= 2
        if o['ax'] == d['grad']:
            q['tilt'] *= 2
        q['sp'] += [add(x, v) for x in d['sp']]
        q['db'] += [[add(x, v), add(y, v)] for x, y in d['db']]
    return q


def near(d, q):
    """Nothing has moved, in the second description, further than the sums
    reach."""
    nodes = lambda x: np.array(x['sp'] + [b for y in x['db'] for b in y])
    m = nodes(q)[:len(nodes(d))] if len(q['sp']) == len(d['sp']) and len(
        q['db']) == len(d['db']) else nodes(d)
    m = (m - nodes(d))/np.array(d['L'])
    return np.abs(m[:, None] - m[None]).max() < 1.6 and np.abs(m).max() < 1.6


def source(o, s):
    return s + s if o['op'] == 'double' else s


def random_start(rng, ns, nd, sizes=(1.,)):
    """A description, and the sizes of its particles."""
    while True:
        flow, grad = [(1, 3), (1, 2), (2, 3), (3, 1), (2, 1), (3, 2)][rng.randint(6)]
        L = rng.randint(1536, 1920, 3)
        L[grad-1] = 2048      # whole shears are exact
        tilt = 0 if rng.rand() < .4 else int(rng.uniform(.43, .57)*L[flow-1])
        d = {'L': L.tolist(), 'flow': flow, 'grad': grad, 'tilt': tilt,
             'o': rng.randint(-1000, 400, 3).tolist(), 'sp': [], 'db': []}
        a = [float(rng.choice(sizes)) for _ in range(ns)]
        b = [float(rng.choice(sizes)) for _ in range(nd)]
        x = np.array(d['o']) + rng.uniform(0, 1, 3)*L
        nodes = []
        for k in range(ns + nd):
            s = (a + b)[k]
            if nodes:
                prev, t = nodes[rng.randint(len(nodes))]
                r = (s + t)*UNIT*rng.uniform(1.02, [1.5, 2.6][rng.randint(2)])
                x = prev + solvelab.unit(rng)*r
            x = np.round(x).astype(int)
            nodes.append((x, s))
            if k < ns:
                d['sp'].append(x.tolist())
            else:
                y = np.round(x + solvelab.unit(rng)*rng.uniform(2.1, 3.)*s*UNIT).astype(int)
                nodes.append((y, s))
                d['db'].append([x.tolist(), y.tolist()])
        if clear(d, nodes):
            return d, (a, b)


def clear(d, nodes):
    r = range(-2, 3)
    shifts = np.array([vec(d, (i, j, k)) for i in r for j in r for k in r])
    for i in range(len(nodes)):
        for j in range(i+1):
            s = shifts if i != j else shifts[np.any(shifts != 0, axis=1)]
            g = 2*np.linalg.norm(nodes[i][0] - nodes[j][0] + s, axis=1)/(
                nodes[i][1] + nodes[j][1])/UNIT
            if g.min() < 2.02 or np.abs(g-4).min() < 1e-4:
                return False
    return True


def problem(d, sizes, full, form, h):
    pos = {'sphere_sizes': sizes[0], 'dumbbell_sizes': sizes[1],
           'sphere_positions': [np.array(x)/UNIT for x in d['sp']],
           'dumbbell_positions': [(np.array(x) + np.array(y))/2/UNIT for x, y in d['db']],
           'dumbbell_deltax': [(np.array(y) - np.array(x))/UNIT for x, y in d['db']]}
    bl = np.array(d['o'])/UNIT
    p = {'bl': bl, 'tr': bl + np.array(d['L'])/UNIT}
    p.update(solvelab.shear(d['tilt']/d['L'][d['grad']-1], d['flow']-1, d['grad']-1))
    q = solvelab.problem(pos, full, form, **p)
    q['settings'] = {'how_far_to_reproduce_gridpoints': h}
    return q


def pick(full, sp, db):
    return {f: np.array(v)[sp if f in SF else db] for f, v in full.items()}


def session(rng, shape, ops, sizes=(1.,), h=3):
    """Problems of a base description and of those after each change."""
    d, (a, b) = random_start(rng, *shape, sizes=sizes)
    start = d
    pos = {'sphere_sizes': a, 'dumbbell_sizes': b, 'sphere_positions': d['sp'],
           'dumbbell_positions': d['db'], 'dumbbell_deltax': d['db']}
    full = solvelab.values(rng, pos)
    name = rng.choice(['fts', 'fts', 'fte']) if shape[0] else 'fts'
    sp, db = list(range(shape[0])), list(range(shape[1]))
    out = []
    for o in [{'op': 'base'}] + ops:
        if o['op'] != 'base':
            o = dict(o)
            if o['op'] == 'origin':
                o['t'] = [int(x)*47 for x in o['t']]
            d, sp, db = change(d, o), source(o, sp), source(o, db)
            if not near(start, d):
                break
            if o['op'] == 'double':
                start = d
        size = ([a[k] for k in sp], [b[k] for k in db])
        # the sums reach less far in long boxes
        more = 1 if any(x['op'] == 'double' for x in ops) else 0
        out.append((o, d, problem(d, size, pick(full, sp, db), (name, 0, 0), h + more)))
    return out


def event(o, d, p, r, sc, tol):
    e = dict(o, ok='error' not in r, tol=tol, d=d, sp=[], db=[])
    if e['ok']:
        rec = solvelab.record(r, sc)
        flat = lambda v: [int(x) for x in np.array(v).reshape(-1)]
        e['sp'] = [[x for f in SF for x in flat(rec[f][k])] for k in range(len(d['sp']))]
        e['db'] = [[x for f in DF for x in flat(rec[f][k])] for k in range(len(d['db']))]
    return e


def judge(chk, sessions, what):
    probs = [solvelab.task(p) for s in sessions for _, _, p in s]
    res = iter(vlib.solves(probs, timeout=800))
    events, owner = [], []
    for s in sessions:
        rs = [next(res) for _ in s]
        sc = solvelab.scales(rs)
        tol = max(solvelab.FULL//5000, max(solvelab.tolerance(p) for _, _, p in s))
        for (o, d, p), r in zip(s, rs):
            events.append(event(o, d, p, r, sc, tol))
            owner.append((o, d, p, r))

    def desc(i):
        o, d, p, r = owner[i]
        return {'op': o, 'description': d, 'problem': solvelab.describe(p, r),
                'base': next(solvelab.describe(owner[j][2], owner[j][3])
                             for j in range(i, -1, -1) if owner[j][0]['op'] == 'base')}
    if not chk.validate('SDLatticeTrace', 'SDLatticeTrace.cfg', events, len(sessions),
                        describe=desc):
        return False
    chk.count(solves=len(probs))
    chk.sample({what: {'chain': [o for o, _, _ in sessions[-1]],
                       'start': sessions[-1][0][1]}})
    return True
