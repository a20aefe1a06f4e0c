"""C01: every input form solves one and the same physical problem."""
import numpy as np

import solvelab
import vlib


def restate(p, a, form):
    """The same problem in another form: prescribing matching values."""
    full = {f: np.array(a[g], dtype=float) for f, g in solvelab.FIELDS.items()}
    return dict(p, full=full, form=form)


def run(chk):
    chk.model('MCSolve', 'MCSolve.cfg')
    rng = chk.rng(1)
    base, what = [], []
    shapes = [(s, d) for s in range(4) for d in range(3) if s+d] + [(5, 0), (4, 3), (0, 4)]
    for shape in shapes:
        for k in range(chk.pick(4, 20)):
            fs = solvelab.forms(*shape)
            pal = solvelab.TAME[rng.randint(len(solvelab.TAME))]
            p = solvelab.random_problem(rng, *shape, form=fs[rng.randint(len(fs))],
                                        palette=pal)
            if rng.rand() < .25:
                p['opts'] = [{'cutoff': 1.6}, {'minf_only': True},
                             {'drag': True}][rng.randint(3)]
            p['mu'] = float(rng.choice([1., 1., 1.6]))
            base.append(p)
    n = len(base)
    for k in range(chk.pick(8, 40)):
        shape = [(2, 0), (1, 1), (0, 2), (2, 1)][k % 4]
        base.append(solvelab.random_periodic(rng, *shape, gamma=[None, .4][k % 2]))
    groups = []
    res = vlib.solves([solvelab.task(p) for p in base])
    for k, (p, a) in enumerate(zip(base, res)):
        p = dict(p, answer=a)
        g = [(p, {'op': 'base'})]
        if 'error' not in a:
            shape = len(p['pos']['sphere_sizes']), len(p['pos']['dumbbell_sizes'])
            fs = solvelab.forms(*shape)
            if k >= n:
                rng.shuffle(fs)
                fs = fs[:6]
            for f in fs:
                q = restate(p, a, f)
                del q['answer']
                g.append((q, {'op': 'form', 'from': 0, 'tol': 1200}))
        groups.append(g)
    solvelab.judge(chk, groups, None, 'forms')
