"""C25: approximation switches change only what they say they change."""
import numpy as np

import child
import nearlab
import solvelab
import vlib

from c08 import crowd

Q = 1e6
TOP = 1e7
COMBOS = [{'near': n, 'drag': d, 'beads': b} for n in (True, False)
          for d in (False, True) for b in (True, False)]
SHAPES = [(2, 1), (1, 2), (0, 2), (1, 1), (2, 2), (3, 0), (0, 3)]


class Config:
    def __init__(self, rng, pos, box=None, cut=2., mu=1., repeats=()):
        self.pos, self.box, self.mu, self.cut = pos, box, mu, cut
        self.parts = nearlab.particles(pos)
        self.unit = min(a for _, _, a in self.parts)
        vals = {'mu': mu}
        if box:
            vals.update(box)
        self.problems, self.names = [], []
        for s in COMBOS:
            st = {'bead_bead_interactions': s['beads']}
            if box:
                st['how_far_to_reproduce_gridpoints'] = 3 if repeats else 1
            self.problems.append({'pos': pos, 'vals': vals, 'cutoff': cut,
                                  'drag': s['drag'], 'minf_only': not s['near'],
                                  'settings': st})
            self.names.append((s, 0))
        for r in repeats:
            for near in (True, False):
                self.problems.append({
                    'pos': pos, 'vals': vals, 'cutoff': cut, 'minf_only': not near,
                    'settings': {'bead_bead_interactions': True,
                                 'how_far_to_reproduce_gridpoints': r}})
                self.names.append(({'near': near, 'drag': False, 'beads': True}, r))

    def blocks(self, m, power):
        """Numbers of every ordered pair, without dimensions."""
        at, k = [], 0
        for place, _, _ in self.parts:
            w = 11 if place[1] == 0 else 3
            at.append(slice(k, k + w))
            k += w
        d = np.concatenate([[0]*3 + ([1]*8 if p[1] == 0 else []) for p, _, _ in self.parts])
        m = m*float(self.unit)**(power*(1 + d[:, None] + d[None, :]))
        return m, at

    def events(self, res):
        bad = [r['error'] for r in res if 'error' in r]
        kinds = ['bead' if p[1] else 'sphere' for p, _, _ in self.parts]
        radii = [int(round(a/self.unit)) for _, _, a in self.parts]
        base = {'kinds': kinds, 'radii': radii, 'ok': not bad, 'reference': False}
        if bad:
            return [dict(base, e='far', s=COMBOS[0], error=bad[0][:200])]
        A = np.concatenate([nearlab.rows(self.pos, p) for p, _, _ in self.parts])
        mob = [A @ r['mobility'] @ A.T*8*np.pi*self.mu for r in res]
        fars, nears = {}, {}
        for (s, r), m in zip(self.names, mob):
            key = (s['drag'], s['beads'], r)
            (nears if s['near'] else fars)[key] = m
        first = (False, True, 0)
        events = []
        keys = [first] + [k for k in fars if k != first]

        def add(kind, s, m, at, scale, ref, tol):
            e = dict(base, e=kind, s=s, reference=ref, tol=tol)
            e['entries'] = [[vlib.q((m*scale)[a, b].reshape(-1), 1) for b in at]
                            for a in at]
            events.append(e)
        for k in keys:
            s = {'near': False, 'drag': k[0], 'beads': k[1]}
            m, at = self.blocks(fars[k], 1)
            add('far', s, m, at, Q, k == first, 3 if k[2] == 0 else 20)
        pieces = {k: self.blocks(np.linalg.inv(nears[k]) - np.linalg.inv(fars[k]), -1)[0]
                  for k in keys}
        base_r = self.blocks(np.linalg.inv(fars[first]), -1)[0]
        scale = TOP/max(np.max(np.abs(pieces[first])), np.max(np.abs(base_r)))
        for k in keys:
            s = {'near': True, 'drag': k[0], 'beads': k[1]}
            add('near', s, pieces[k], at, scale, k == first, 20)
            # (near field off: nothing is left)
        return events

    def describe(self):
        return {'pos': self.pos, 'box': self.box, 'mu': self.mu, 'cutoff': self.cut}


def judge(chk, configs, what):
    probs = [p for c in configs for p in c.problems]
    res = vlib.solves(probs, func=child.mobility_chunk)
    events, owner, k = [], [], 0
    for c in configs:
        e = c.events(res[k:k+len(c.problems)])
        k += len(c.problems)
        events += e
        owner += [c]*len(e)
    lo = 0
    while lo < len(events):
        hi = lo
        while hi < len(events) and (hi - lo < 250 or owner[hi] is owner[hi-1]):
            hi += 1
        ok = chk.validate('SDSwitchTrace', 'SDSwitchTrace.cfg', events[lo:hi], 0,
                          describe=lambda i: dict(
                              owner[lo+i].describe(), switches=events[lo+i]['s'],
                              error=events[lo+i].get('error')))
        if not ok:
            return False
        lo = hi
    chk.count(traces_validated_against_impl=len(configs), solves_of_whole_matrices=len(probs))
    chk.sample({what: configs[-1].describe()})
    return True


def run(chk):
    chk.model('MCSwitch', 'MCSwitch.cfg')
    rng = chk.rng(1)
    cs = []
    for k in range(chk.pick(56, 400)):
        pal = solvelab.TAME[rng.randint(len(solvelab.TAME))]
        pos = crowd(rng, SHAPES[k % len(SHAPES)], pal, close=.8,
                    closest=float(rng.choice([2.02, 2.2])), spread=1.5)
        cs.append(Config(rng, pos, cut=float(rng.choice([2., 1.5, 2.25])),
                         mu=float(rng.choice([1., .2, 5.])),
                         repeats=(1, 4) if k % 8 == 0 else ()))
    if not judge(chk, cs, 'unbounded'):
        return
    cs = []
    for k in range(chk.pick(16, 80)):
        # the second half also at more repeats than usual
        more = k % 4 == 3
        shape = [(1, 1), (0, 2), (0, 1), (1, 0), (2, 1)][k % 5]
        p = solvelab.random_periodic(
            rng, *((1, 0) if more else shape), side=12.,
            gamma=None if k % 2 else float(rng.uniform(.35, .65)))
        vals = {n: p[n] for n in ('Et', 'Ot') if n in p}
        cs.append(Config(rng, p['pos'], box=dict(vals, bl=p['bl'], tr=p['tr']),
                         repeats=(4,) if more else ()))
    judge(chk, cs, 'periodic')
