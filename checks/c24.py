"""C24: solving is a pure function of the configuration and prescribed data."""
import child
import solvelab
import vlib


def sessions(chk, rng, cs, make, what, settings=None):
    """Every schedule: two problems, each solved plainly first or straight in
    the schedule's own way."""
    tasks, probs, plans = [], [], []
    for ops in cs:
        pq = make()
        steps = [{'prob': o['prob']-1, 'mode': o['mode'],
                  'level': int(o['mode'][5:]) if o['mode'].startswith('print') else 0}
                 for o in ops]
        # The answers to compare with come from a fresh process
        for j in (0, 1):
            tasks.append({'cwd': vlib.newdir('s'), 'settings': settings,
                          'problems': [solvelab.task(pq[j])],
                          'steps': [{'prob': 0, 'mode': 'plain'}]})
        tasks.append({'cwd': vlib.newdir('s'), 'settings': settings,
                      'problems': [solvelab.task(p) for p in pq], 'steps': steps})
        probs.append(pq)
        plans.append((ops, steps))
    vlib.warm()
    # Many schedules share a process pool: one child plays several in turn
    res = vlib.pmap(child.session, tasks, timeout=600)
    groups = []
    for k, (pq, (ops, steps)) in enumerate(zip(probs, plans)):
        parts = [r if isinstance(r, list) else [{'error': str(r.get('detail') or r)}]*9
                 for r in res[3*k:3*k+3]]
        for j in (0, 1):
            g = [(dict(pq[j], answer=parts[j][0]), {'op': 'base'})]
            for n, st in enumerate(steps):
                if st['prob'] == j:
                    g.append((dict(pq[j], answer=parts[2][n]), {
                        'op': 'again', 'mode': st['mode'], 'from': 0,
                        'step': n+1, 'plan': ' '.join(
                            '%d:%s' % (s['prob']+1, s['mode']) for s in steps)}))
            groups.append(g)
    return solvelab.judge(chk, groups, None, what)


def run(chk):
    chk.model('MCSolve', 'MCSolve.cfg')
    rng = chk.rng(1)
    cs = solvelab.chains(chk, 'again', [(1, 0)], 2)[1, 0]
    more = solvelab.chains(chk, 'again', [(1, 0)], 3)[1, 0]
    rng.shuffle(more)
    cs = cs + more[:chk.pick(150, 1700)]

    def make():
        out = []
        for j in (0, 1):
            shape = [(1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (1, 1), (2, 2), (3, 1)][
                rng.randint(8)]
            p = solvelab.random_problem(rng, *shape)
            if rng.rand() < .4:
                p['opts'] = [{'cutoff': 1.6}, {'minf_only': True},
                             {'drag': True}, {'extract': True}][rng.randint(4)]
            p['mu'] = float(rng.choice([1., 1.7]))
            out.append(p)
        if rng.rand() < .4:     # the same particles under other loads
            out[1] = dict(out[0], full=solvelab.values(rng, out[0]['pos']))
        return out
    if not sessions(chk, rng, cs, make, 'repeated solves'):
        return

    def make_periodic():
        out = []
        for j in (0, 1):
            shape = [(1, 0), (0, 1), (1, 1)][rng.randint(3)]
            out.append(solvelab.random_periodic(
                rng, *shape, gamma=[None, .4][rng.randint(2)]))
        if rng.rand() < .5:
            out[1] = solvelab.random_problem(rng, 2, 1)
        return out
    rng.shuffle(cs)
    sessions(chk, rng, cs[:chk.pick(12, 60)], make_periodic, 'repeated periodic solves')
