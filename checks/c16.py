"""C16: saved output holds exactly the requested frames."""
import itertools
import json

import runlab


def configurations(chk):
    """Every combination of small intervals, and seeded larger ones."""
    rng = chk.rng()
    out = []
    n, m = chk.pick((5, 3), (7, 4))
    full = [runlab.cfg(N, p, f, s, b, bk)
            for N in range(1, n + 1) for p in range(0, m + 1)
            for f in range(0, m + 1) for s in range(0, min(N, 4))
            for b, bk in ((1, True), (2, True), (3, True), (2, False))]
    k = chk.pick(330, 2000)
    pick = rng.permutation(len(full))[:k]
    for i in sorted(pick):
        out.append(full[i])
    for c in out:
        c['scheme'] = ['euler', 'rk4', 'ab2'][rng.randint(3)]
        c['inv'] = int(rng.choice([1, 1, 2, 3]))
    for _ in range(chk.pick(40, 300)):
        N = int(rng.randint(6, 14))
        out.append(runlab.cfg(
            N, int(rng.randint(0, 7)), int(rng.randint(0, 7)),
            int(rng.randint(0, N)), int(rng.randint(1, 7)),
            bool(rng.randint(2)), int(rng.randint(1, 4)),
            ['euler', 'rk4', 'ab2'][rng.randint(3)]))
    # Intervals that never come round, and a start beyond the last frame
    for N, p, f, s in [(3, 5, 7, 0), (4, 5, 1, 2), (4, 1, 5, 1), (3, 2, 2, 3),
                       (2, 1, 1, 5), (5, 4, 3, 4), (1, 1, 1, 0), (6, 5, 5, 5)]:
        out.append(runlab.cfg(N, p, f, s, 2, True))
    return out


def run(chk):
    chk.model('MCRun', 'MCRun.cfg' if not chk.thorough else 'MCRunThorough.cfg')
    cfgs = configurations(chk)
    sc = [{'world': 'wall' if i % 4 else 'free', 'cfg': c, 'plan': []}
          for i, c in enumerate(cfgs)]
    nmax = max(c['n'] for c in cfgs)
    refs = runlab.references([runlab.ref_key(s['world'], s['cfg'])
                              for s in sc], nmax)
    traces = runlab.play(sc, refs)
    for t in traces[:2] + traces[-1:]:
        chk.sample(t)
    chk.cov['distinct_configurations'] = len(set(
        json.dumps(c, sort_keys=True) for c in cfgs))
    runlab.validate(chk, sc, traces)
    chk.assumptions = [
        'saved rows are identified with frames by comparing them (1e-9) with '
        'a run that saves every frame']
