"""C06: one and two spheres reproduce the exact tabulated hydrodynamics."""
import numpy as np

import child
import pairlab
import solvelab
import vlib


def alone(chk, rng, n):
    probs, keep = [], []
    for _ in range(n):
        a = float(10**rng.uniform(-2, 2))
        mu = float(10**rng.uniform(-2, 2))
        B = pairlab.frame(rng, solvelab.unit(rng))
        pos = {'sphere_sizes': [a], 'sphere_positions': [rng.uniform(-3, 3, 3)],
               'dumbbell_sizes': [], 'dumbbell_positions': [], 'dumbbell_deltax': []}
        m = pairlab.random_motion(rng, 9)[0]
        v = pairlab.from_local(B, m['U'], m['O']/a, m['E']/a)
        probs.append({'pos': pos, 'vals': {'mu': mu}, 'motions': [v],
                      'minf_only': bool(rng.randint(2)), 'drag': bool(rng.randint(2))})
        keep.append((a, mu, B, m))
    res = vlib.solves(probs, func=child.resistance_chunk)
    events = []
    Q = 1e6
    for (a, mu, B, m), r in zip(keep, res):
        e = {'e': 'alone', 'ok': 'error' not in r, 'unit': int(Q), 'tol': 3,
             'm': {k: m[k].tolist() for k in m}}
        if e['ok']:
            F, T, S = pairlab.to_local(B, r['held'][0][0])
            e['F'] = vlib.q(F/(6*np.pi*mu*a), Q)
            e['T'] = vlib.q(T/(8*np.pi*mu*a**2), Q)
            e['S'] = vlib.q(S/(20/3*np.pi*mu*a**2), Q)
        events.append(e)
    return chk.validate('SDPairTrace', 'SDPairTrace.cfg', events, len(events),
                        describe=lambda i: {'problem': probs[i], 'got': res[i]})


def views(t, k, il, a, mu):
    """Dimensional scalars of both views of a pair whose ratio has index il."""
    nl = t.shape[3]
    return [pairlab.dimensional(t[:, :, k, il], a[0], mu),
            pairlab.dimensional(t[:, :, k, nl-1-il], a[1], mu)]


def pairs(chk, rng, cases, per):
    """cases: (index of separation, index of size ratio, part of the interval
    to the next separation in eighths)."""
    t, s, lam = pairlab.table()
    d = pairlab.table(True)[0]
    probs, keep = [], []
    for k, il, w in cases:
        scale = float(10**rng.uniform(-1, 1))
        mu = float(rng.choice([1., 1., .3, 20.]))
        a = [1., float(lam[il])] if lam[il] <= 1 else [1/float(lam[il]), 1.]
        sd = s[k] if w == 0 else s[k] + (s[k+1] - s[k])*w/8
        e = solvelab.unit(rng)
        if rng.rand() < .2:
            e = np.eye(3)[rng.randint(3)]*rng.choice([-1, 1])
        B = pairlab.frame(rng, e)
        pos = pairlab.two_spheres(a, sd*(a[0]+a[1])/2, e, scale, rng)
        a = [x*scale for x in a]
        un = pairlab.units(rng, a)
        ms = [pairlab.random_motion(rng, x) for x in
              ([rng.randint(6) for _ in range(per - 1)] + [9])]
        p = {'pos': pos, 'vals': {'mu': mu}, 'cutoff': 2.25 if sd > 3.9 else 2,
             'motions': [pairlab.motion_vector(B, m, un) for m in ms]}
        probs.append(p)
        if w:
            probs.append(dict(p, minf_only=True))
        keep.append((k, il, w, a, mu, B, un, ms, len(probs)))
    res = vlib.solves(probs, func=child.resistance_chunk)
    events, where = [], []
    for k, il, w, a, mu, B, un, ms, last in keep:
        full, far = (res[last-2], res[last-1]) if w else (res[last-1], None)
        where0 = {'separation': s[k], 'eighths': w, 'ratio': lam[il], 'sizes': a}
        for j, m in enumerate(ms):
            ok = 'error' not in full and 'error' not in (far or {})
            e = {'e': 'between' if w else 'pair', 'ok': ok, 'kinds': ['sphere']*2,
                 'm': [{p: x[p].tolist() for p in x} for x in m]}
            if ok:
                cs = [views(d if w else t, k, il, a, mu)]
                if w:
                    cs.append(views(d, k+1, il, a, mu))
                cs = [pairlab.coefficients(c) for c in cs]
                held = pairlab.local_held(B, full['held'][j][0])
                fh = pairlab.local_held(B, far['held'][j][0]) if w else None
                out, got, fars, e['tol'] = pairlab.quantise(cs, m, un, held, a, mu, fh)
                e['c'], e['got'] = out[0], got
                if w:
                    e['d'], e['far'], e['a'], e['b'] = out[1], fars, w, 8 - w
            events.append(e)
            where.append(dict(where0, result=str(full)[:500] if not ok else ''))
    ok = chk.validate('SDPairTrace', 'SDPairTrace.cfg', events, len(keep),
                      describe=lambda i: where[i])
    if ok:
        chk.count(pairs=len(keep), motions=len(events))
        chk.sample({'pair': where[-1], 'motion': events[-1]['m']})
    return ok


def bead_pair(rng, kinds, a, r, e, scale):
    """Two particles, spheres or beads of dumbbells whose other bead is far
    away. Returns the configuration, and for either particle its place in a
    motion (sphere number, or dumbbell and bead)."""
    x = [rng.uniform(-3, 3, 3)*scale]
    x.append(x[0] + r*scale*e)
    pos = {'sphere_sizes': [], 'sphere_positions': [], 'dumbbell_sizes': [],
           'dumbbell_positions': [], 'dumbbell_deltax': []}
    place = []
    for i in (0, 1):
        if kinds[i] == 'sphere':
            place.append((len(pos['sphere_sizes']), 0))
            pos['sphere_sizes'].append(a[i]*scale)
            pos['sphere_positions'].append(x[i])
        else:
            bead = 1 + int(rng.randint(2))
            place.append((len(pos['dumbbell_sizes']), bead))
            # the partner well outside any range, on the far side
            d = (e if i else -e)*scale*400*(1 + i) + rng.normal(size=3)*scale
            d *= 1 if bead == 1 else -1
            pos['dumbbell_sizes'].append(a[i]*scale)
            pos['dumbbell_deltax'].append(d)
            pos['dumbbell_positions'].append(x[i] + (d/2 if bead == 1 else -d/2))
    return pos, place


def with_beads(chk, rng, cases, per):
    """The corrections of pairs with dumbbell beads."""
    t, s, lam = pairlab.table(True)
    probs, keep = [], []
    for k, il, w, kinds in cases:
        scale = float(10**rng.uniform(-.5, .5))
        mu = float(rng.choice([1., 1., .3, 20.]))
        a = [1., float(lam[il])] if lam[il] <= 1 else [1/float(lam[il]), 1.]
        sd = s[k] if w == 0 else s[k] + (s[k+1] - s[k])*w/8
        e = solvelab.unit(rng)
        B = pairlab.frame(rng, e)
        pos, place = bead_pair(rng, kinds, a, sd*(a[0]+a[1])/2, e, scale)
        a = [x*scale for x in a]
        un = pairlab.units(rng, a)
        ns, nd = len(pos['sphere_sizes']), len(pos['dumbbell_sizes'])
        ms, vs = [], []
        for j in range(per):
            m = pairlab.random_motion(rng, 9 if j == per - 1 else int(rng.randint(6)))
            v = np.zeros(11*ns + 6*nd)
            for i in (0, 1):
                n, bead = place[i]
                if bead:
                    m[i]['O'], m[i]['E'] = m[i]['O']*0, m[i]['E']*0
                    u = B.T @ m[i]['U']*un[i]['U']
                    o = 11*ns + 6*n
                    v[o:o+3], v[o+3:o+6] = u/2, u/2*(1 if bead == 2 else -1)
                else:
                    v[11*n:11*n+11] = pairlab.from_local(
                        B, *(np.array(m[i][p])*un[i][p] for p in 'UOE'))
            ms.append(m)
            vs.append(v)
        p = {'pos': pos, 'vals': {'mu': mu}, 'cutoff': 2.25 if sd > 3.9 else 2,
             'motions': vs}
        probs += [p, dict(p, minf_only=True)]
        keep.append((k, il, w, kinds, a, mu, B, un, ms, place, ns))
    res = vlib.solves(probs, func=child.resistance_chunk)
    events, where = [], []
    for n, (k, il, w, kinds, a, mu, B, un, ms, place, ns) in enumerate(keep):
        full, far = res[2*n:2*n+2]
        ok = 'error' not in full and 'error' not in far

        def local(f):
            out = []
            for i in (0, 1):
                n, bead = place[i]
                if bead:
                    g = f[11*ns + 6*n:11*ns + 6*n + 6]
                    F = B @ (g[:3] + g[3:]*(1 if bead == 2 else -1))/2
                    out.append({'F': F, 'T': np.zeros(3), 'S': np.zeros(5)})
                else:
                    F, T, S = pairlab.to_local(B, f[11*n:11*n+11])
                    out.append({'F': F, 'T': T, 'S': S})
            return out
        for j, m in enumerate(ms):
            e = {'e': 'between', 'ok': ok, 'kinds': list(kinds),
                 'm': [{p: x[p].tolist() for p in x} for x in m]}
            if ok:
                cs = [pairlab.coefficients(views(t, x, il, a, mu)) for x in (k, k+1)]
                out, got, fars, e['tol'] = pairlab.quantise(
                    cs, m, un, local(full['held'][j][0]), a, mu,
                    local(far['held'][j][0]), tol=20)
                e['c'], e['got'], e['d'] = out[0], got, out[1]
                e['far'], e['a'], e['b'] = fars, w, 8 - w
            events.append(e)
            where.append({'separation': s[k], 'eighths': w, 'ratio': lam[il],
                          'sizes': a, 'kinds': kinds, 'pos': probs[2*n]['pos'],
                          'result': '' if ok else str((full, far))[:600]})
    ok = chk.validate('SDPairTrace', 'SDPairTrace.cfg', events, len(keep),
                      describe=lambda i: where[i])
    if ok:
        chk.count(pairs_with_beads=len(keep), motions=len(events))
    return ok


KINDS = [('sphere', 'bead'), ('bead', 'sphere'), ('bead', 'bead')]


def run(chk):
    chk.model('MCPair', 'MCPair.cfg')
    rng = chk.rng(1)
    if not alone(chk, rng, chk.pick(60, 400)):
        return
    t, s, lam = pairlab.table()
    n = len(s)
    cases = [(k, il, 0) for k in range(n - 1) for il in range(len(lam))]
    if not pairs(chk, rng, cases, chk.pick(4, 12)):
        return
    inner = [(k, il, w) for k in range(n - 2) for il in range(len(lam))
             for w in (range(1, 8) if chk.thorough else [1 + rng.randint(7)])]
    if not chk.thorough:
        inner = [inner[j] for j in rng.permutation(len(inner))[:120]]
    if not pairs(chk, rng, inner, chk.pick(4, 8)):
        return
    cases = [(k, il, int(rng.randint(8)), kinds) for k in range(n - 2)
             for il in range(len(lam)) for kinds in KINDS]
    if not chk.thorough:
        cases = [cases[j] for j in rng.permutation(len(cases))[:150]]
    with_beads(chk, rng, cases, chk.pick(3, 8))
