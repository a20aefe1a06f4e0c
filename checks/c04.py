"""C04: results do not depend on how particles are numbered."""
import numpy as np

import solvelab


def all_or_none(rng, ns, nd):
    """A form in which every sphere is treated alike, and every dumbbell."""
    fs = [f for f in solvelab.forms(ns, nd) if f[1] in (0, ns) and f[2] in (0, nd)]
    return fs[rng.randint(len(fs))]


def far_away(rng, p, distance):
    """p with further particles a long way off."""
    ns, nd = len(p['pos']['sphere_sizes']), len(p['pos']['dumbbell_sizes'])
    while True:
        es, ed = rng.randint(0, 3), rng.randint(0, 3)
        if es + ed > 0 and (ns > 0 or es == 0):
            break
    sizes = list(p['pos']['sphere_sizes']) + list(p['pos']['dumbbell_sizes'])
    a = sizes[rng.randint(len(sizes))]
    pos = {k: [np.array(x) for x in v] for k, v in p['pos'].items()}
    for j in range(es):
        pos['sphere_sizes'].append(a)
        pos['sphere_positions'].append(
            solvelab.unit(rng)*distance*(j+1))
    for j in range(ed):
        pos['dumbbell_sizes'].append(a)
        pos['dumbbell_positions'].append(
            solvelab.unit(rng)*distance*(j+4))
        pos['dumbbell_deltax'].append(solvelab.unit(rng)*3*a)
    full = solvelab.values(rng, pos)
    for f, v in p['full'].items():
        full[f][:len(v)] = v
    form = p['form'][0]
    big = solvelab.problem(pos, full, (
        form, ns+es if p['form'][1] else 0, nd+ed if p['form'][2] else 0))
    return big, {'op': 'drop', 'ns': ns, 'nd': nd, 'tol': 2000}


def tol(p):
    """Renumbering unequal particles exchanges a size ratio for its inverse,
    whose table entries agree to about five digits."""
    a = set(list(p['pos']['sphere_sizes'])) | set(list(p['pos']['dumbbell_sizes']))
    return max(solvelab.tolerance(p), 1000 if len(a) > 1 else 0)


def run(chk):
    chk.model('MCSolve', 'MCSolve.cfg')
    rng = chk.rng(1)
    sessions = []
    for length, shapes in ((2, [(2, 0), (3, 0), (0, 2), (1, 1), (2, 2), (3, 2)]),
                           (1, [(4, 3), (1, 3), (5, 2)])):
        ch = solvelab.chains(chk, 'number', shapes, length)
        for shape in shapes:
            cs = ch.get(shape, [])
            rng.shuffle(cs)
            n = chk.pick(60, 400)
            for ops in (cs*n)[:n]:
                p = solvelab.random_problem(rng, *shape,
                                            form=all_or_none(rng, *shape))
                if rng.rand() < .2:
                    p['opts'] = [{'cutoff': 1.6}, {'minf_only': True},
                                 {'drag': True}][rng.randint(3)]
                sessions.append((p, [dict(o, tol=tol(p)) for o in ops]))
    if not solvelab.play(chk, sessions, 'renumbering'):
        return
    groups = []
    for k in range(chk.pick(120, 600)):
        shape = [(1, 0), (2, 0), (0, 1), (0, 2), (1, 1), (2, 2)][k % 6]
        p = solvelab.random_problem(rng, *shape, form=all_or_none(rng, *shape),
                                    palette=((1,), (1,)) if k % 2 else ((1, .1), (.1,)))
        # The form must keep its meaning when nothing is fixed
        big, o = far_away(rng, p, 1e7)
        if big['form'][0] != 'fts' and p['form'][0] in ('ufte', 'ufteu', 'duf'):
            p = dict(p, form=(p['form'][0],
                              shape[0] if big['form'][1] else 0,
                              shape[1] if big['form'][2] else 0))
        groups.append([(big, {'op': 'base'}), (p, dict(o, **{'from': 0}))])
    if not solvelab.judge(chk, groups, None, 'far away'):
        return
    # Periodic boxes
    sessions = []
    shapes = [(2, 0), (1, 1), (0, 2), (2, 1)]
    ch = solvelab.chains(chk, 'number', shapes, 1)
    for k in range(chk.pick(32, 160)):
        shape = shapes[k % 4]
        ops = ch[shape][rng.randint(len(ch[shape]))]
        palette = [((1,), (1,)), ((1, .1), (.1,)), ((1,), (1, .1))][k % 3]
        p = solvelab.random_periodic(
            rng, *shape, palette=palette, form=all_or_none(rng, *shape),
            gamma=[None, .4][k//4 % 2])
        sessions.append((p, [dict(o, tol=tol(p)) for o in ops]))
    solvelab.play(chk, sessions, 'periodic renumbering')
