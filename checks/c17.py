"""C17: an interrupted run can be started again and ends as if uninterrupted."""
import json
import re

import runlab
import vlib


def configurations(chk):
    rng = chk.rng(1)
    out = []
    for i in range(chk.pick(70, 320)):
        world = ['wall', 'wall', 'free', 'drag', 'steady'][i % 5]
        n = int(rng.randint(2, 8))
        scheme = 'euler' if rng.rand() < .6 else 'rk4'
        if world == 'steady':
            scheme = 'ab2'
        pos = int(rng.randint(1, 4))
        inv = 1
        if world in ('wall', 'free') and rng.rand() < .4:
            # Restart frames are multiples of the position interval
            inv = int(rng.choice([d for d in (1, 2, 3) if pos % d == 0]))
        if world in ('drag', 'steady'):
            inv = int(rng.randint(1, 4))
        start = int(rng.randint(0, n)) if rng.rand() < .5 else 0
        boom, protect = -1, False
        if rng.rand() < .15 and world == 'drag':
            boom, protect = int(rng.randint(0, n)), True
        out.append(dict(runlab.cfg(
            n, pos, int(rng.randint(1, 4)), start, int(rng.randint(1, 4)),
            bool(rng.rand() < .93), inv, scheme, boom, protect),
            world=world, id=i))
    return out


def plans(chk, cfgs, ncrash):
    """Every way to be killed, enumerated by TLC from the specification."""
    cfg = open(vlib.SPEC + '/GenRun.cfg').read().replace(
        'MaxCrashes = 2', 'MaxCrashes = %d' % ncrash)
    lines = [{k: v for k, v in c.items() if k != 'world'} for c in cfgs]
    r = vlib.tlc('GenRun', cfg, data={'cfgs.ndjson': lines}, workers=4)
    if not r.ok:
        print(r.text[-3000:])
        raise vlib.Infra('GenRun failed')
    chk.count(states=r.distinct, transitions=r.generated)
    out = {}
    for m in re.finditer(r'<<"VOUT", (\d+), (<<.*?>>)>>$', r.text, re.M):
        p = [(a, int(b)) for a, b in re.findall(r'<<"(\w+)", (\d+)>>', m.group(2))]
        out.setdefault(int(m.group(1)), set()).add(tuple(p))
    return {k: sorted(v) for k, v in out.items()}


def run(chk):
    chk.model('MCRun', 'MCRun.cfg' if not chk.thorough else 'MCRunThorough.cfg')
    cfgs = configurations(chk)
    one = plans(chk, cfgs, 1)
    two = plans(chk, cfgs, 2)
    chk.cov['crash_plans_enumerated'] = sum(map(len, one.values())) + sum(
        map(len, two.values()))
    rng = chk.rng(2)
    sc = []
    foreign = ['setup', 'input', 'frames', 'timestep', 'small timestep', 'newer setup']
    for c in cfgs:
        singles = [p for p in one[c['id']] if len(p) == 1]
        doubles = [p for p in two[c['id']] if len(p) == 2]
        k1, k2 = chk.pick((4, 2), (12, 8))
        for pool, k in ((singles, k1), (doubles, k2)):
            for i in rng.permutation(len(pool))[:k]:
                sc.append({'world': c['world'],
                           'cfg': {k: v for k, v in c.items()
                                   if k not in ('world', 'id')},
                           'plan': [list(x) for x in pool[i]],
                           'forceknown': c['world'] != 'steady',
                           'cut': float(rng.choice([0.0, 0.3, 0.5, 0.97])),
                           'foreign': [foreign[j] for j in
                                       rng.permutation(6)[:rng.randint(0, 4)]]})
    nmax = max(c['n'] for c in cfgs)
    refs = runlab.references([runlab.ref_key(s['world'], s['cfg'])
                              for s in sc], nmax)
    traces = runlab.play(sc, refs)
    for t in traces[:3]:
        chk.sample(t)
    points = {}
    for s in sc:
        for p in s['plan']:
            points[p[0]] = points.get(p[0], 0) + 1
    chk.cov['kills_by_phase'] = points
    chk.cov['runs_started'] = sum(1 for t in traces for e in t if e['e'] == 'start')
    runlab.validate(chk, sc, traces)
    chk.assumptions = [
        'a kill is os._exit; a kill during a write leaves a truncated file',
        'rows are identified with frames by comparing them (1e-9) with an '
        'uninterrupted run that saves every frame',
        'where a restart does not refresh the far field, or the scheme has '
        'two steps, worlds are used in which this makes no difference']
