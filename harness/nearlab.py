"""Near fields of whole configurations and of their pairs, as events of
SDNearTrace."""
import numpy as np

import child
import solvelab
import vlib

UNIT = 100          # coordinates are whole hundredths
TOP = 1e7


def rounded(pos):
    """The configuration with whole coordinates (of spheres and beads)."""
    out = dict(pos)
    out['sphere_positions'] = [np.round(np.array(x)*UNIT)/UNIT
                               for x in pos['sphere_positions']]
    c, d = [], []
    for x, dx in zip(pos['dumbbell_positions'], pos['dumbbell_deltax']):
        a = np.round((np.array(x) - np.array(dx)/2)*UNIT)
        b = np.round((np.array(x) + np.array(dx)/2)*UNIT)
        c.append((a + b)/2/UNIT)
        d.append((b - a)/UNIT)
    out['dumbbell_positions'], out['dumbbell_deltax'] = c, d
    return out


def particles(pos):
    """(place in a motion, whole coordinates, radius) of spheres and beads."""
    out = []
    for n, (x, a) in enumerate(zip(pos['sphere_positions'], pos['sphere_sizes'])):
        out.append(((n, 0), np.round(np.array(x)*UNIT).astype(int), a))
    for b in (1, 2):
        for n, (x, d, a) in enumerate(zip(pos['dumbbell_positions'],
                                          pos['dumbbell_deltax'], pos['dumbbell_sizes'])):
            y = np.array(x) + np.array(d)/2*(1 if b == 2 else -1)
            out.append(((n, b), np.round(y*UNIT).astype(int), a))
    return out


def rows(pos, place):
    """Linear map from a vector of the whole configuration to the components
    of one particle (a sphere's 11, a bead's 3), and back for motions."""
    ns, nd = len(pos['sphere_sizes']), len(pos['dumbbell_sizes'])
    n, b = place
    if b == 0:
        m = np.zeros([11, 11*ns + 6*nd])
        m[:, 11*n:11*n+11] = np.eye(11)
        return m
    m = np.zeros([3, 11*ns + 6*nd])
    o = 11*ns + 6*n
    m[:, o:o+3] = np.eye(3)
    m[:, o+3:o+6] = np.eye(3)*(1 if b == 2 else -1)
    return m


def velocity(pos, place, v):
    return rows(pos, place) @ v


def load(pos, place, f):
    m = rows(pos, place)
    return m @ f/(1 if place[1] == 0 else 2)


def compose(pos, motions):
    """Vector of the configuration from the motions of its particles."""
    ns, nd = len(pos['sphere_sizes']), len(pos['dumbbell_sizes'])
    v = np.zeros(11*ns + 6*nd)
    for (n, b), u in motions.items():
        if b == 0:
            v[11*n:11*n+11] = u
        else:
            o = 11*ns + 6*n
            v[o:o+3] += u/2
            v[o+3:o+6] += u/2*(1 if b == 2 else -1)
    return v


def pair_alone(rng, parts, p, q, d):
    """A configuration with just the two particles (and far-away partners of
    beads). d: displacement from p to q. Returns it and their places."""
    (pp, x, a), (qq, _, b) = parts[p], parts[q]
    x = np.array(x, dtype=float)/UNIT
    y = x + np.array(d, dtype=float)/UNIT
    pos = {'sphere_sizes': [], 'sphere_positions': [], 'dumbbell_sizes': [],
           'dumbbell_positions': [], 'dumbbell_deltax': []}
    if pp[1] and qq[1] and pp[0] == qq[0]:
        pos['dumbbell_sizes'] = [a]
        pos['dumbbell_positions'] = [(x + y)/2]
        pos['dumbbell_deltax'] = [(y - x) if pp[1] == 1 else (x - y)]
        return pos, [(0, pp[1]), (0, qq[1])]
    place = []
    e = (y - x)/np.linalg.norm(y - x)
    for z, s, (n, bead), side in ((x, a, pp, -1), (y, b, qq, 1)):
        if bead == 0:
            place.append((len(pos['sphere_sizes']), 0))
            pos['sphere_sizes'].append(s)
            pos['sphere_positions'].append(z)
        else:
            place.append((len(pos['dumbbell_sizes']), bead))
            w = z + side*e*1e3*(a + b)*(2 + side)
            pos['dumbbell_sizes'].append(s)
            pos['dumbbell_positions'].append((z + w)/2)
            pos['dumbbell_deltax'].append((w - z) if bead == 1 else (z - w))
    return pos, place


def shifted(L, tilt, flow, grad, d, n):
    e = np.array(d) + np.array(n)*np.array(L)
    e[flow] += n[grad]*tilt
    return e


class World:
    """pos (rounded), cut as a fraction, box: None or L, flow, grad, tilt in
    whole units."""

    def __init__(self, rng, pos, cut, box=None, mu=1., settings=None, drag=True,
                 nmotions=2, bases=('far', 'drag')):
        self.pos, self.cut, self.box, self.mu = pos, cut, box, mu
        self.settings, self.bases = settings, bases
        self.parts = particles(pos)
        self.motions = []
        for k in range(nmotions):
            m = {}
            for place, x, a in self.parts:
                u = rng.normal(size=11 if place[1] == 0 else 3)
                if place[1] == 0:
                    u[3:] /= a
                m[place] = u*(1 if k == 0 or rng.rand() < .6 else 0)
            self.motions.append(m)
        self.problems = []
        vals = {'mu': mu}
        if box:
            L = np.array(box['L'])/UNIT
            o = np.round(rng.uniform(-1, 1, 3), 2)*(rng.rand() < .5)
            vals.update({'bl': -L/2 + o, 'tr': L/2 + o})
            sh = solvelab.shear(box['tilt']/box['L'][box['grad']], box['flow'], box['grad'])
            vals.update({'Et': sh['Et'], 'Ot': sh['Ot']})
        base = {'pos': pos, 'vals': vals, 'cutoff': cut[0]/cut[1],
                'motions': [compose(pos, m) for m in self.motions]}
        if settings:
            base['settings'] = settings
        for b in bases:
            d = b == 'drag'
            self.problems.append(dict(base, drag=d))
            self.problems.append(dict(base, drag=d, minf_only=True))
        self.pairs = []
        free = {'mu': mu}
        for p in range(len(self.parts)):
            for q in range(p+1, len(self.parts)):
                d = self.parts[q][1] - self.parts[p][1]
                touch = (self.parts[p][2] + self.parts[q][2])*UNIT
                for n in self.images():
                    e = d if not box else shifted(box['L'], box['tilt'], box['flow'],
                                                  box['grad'], d, n)
                    if np.linalg.norm(e) > 1.05*cut[0]/cut[1]*touch:
                        continue
                    apos, places = pair_alone(rng, self.parts, p, q, e)
                    m = [compose(apos, {places[0]: mm[self.parts[p][0]],
                                        places[1]: mm[self.parts[q][0]]})
                         for mm in self.motions]
                    x = {'pos': apos, 'vals': free, 'cutoff': cut[0]/cut[1], 'motions': m}
                    if settings:
                        x['settings'] = settings
                    self.pairs.append((p, q, n, apos, places, len(self.problems)))
                    self.problems += [x, dict(x, minf_only=True)]

    def images(self):
        if not self.box:
            return [(0, 0, 0)]
        r = range(-2, 3)
        return [(i, j, k) for i in r for j in r for k in r]

    def events(self, res):
        evs = []
        for b in range(len(self.bases)):
            for m in range(len(self.motions)):
                evs.append(self.event(res, res[2*b], res[2*b+1], m))
        return evs

    def event(self, res, full, base, m):
        ok = 'error' not in full and 'error' not in base and all(
            'error' not in r for r in res)
        e = {'e': 'near', 'ok': ok, 'tol': 30, 'cut': list(self.cut),
             'parts': [{'x': x.tolist(), 'a': int(round(a*UNIT))}
                       for _, x, a in self.parts],
             'box': {'on': False}}
        if self.box:
            b = self.box
            e['box'] = {'on': True, 'L': [int(x) for x in b['L']], 'flow': b['flow']+1,
                        'grad': b['grad']+1, 'tilt': int(b['tilt'])}
        if not ok:
            return e
        held = [load(self.pos, p, full['held'][m][0]) for p, _, _ in self.parts]
        fars = [load(self.pos, p, base['held'][m][0]) for p, _, _ in self.parts]
        pairs = []
        for p, q, n, apos, places, k in self.pairs:
            d = res[k]['held'][m][0] - res[k+1]['held'][m][0]
            pairs.append((p, q, n, load(apos, places[0], d), load(apos, places[1], d)))
        speed = max([np.max(np.abs(u[k:])) * (a if k else 1) for p, _, a in self.parts
                     for u in [self.motions[m][p]] for k in (0, 3) if len(u) > k] + [1e-6])
        scale = []
        for j in range(len(self.parts)):
            vals = [held[j], fars[j]] + [x[3] for x in pairs if x[0] == j] + [
                x[4] for x in pairs if x[1] == j]
            s = np.zeros(len(held[j]))
            a = self.parts[j][2]
            for part, k in ((slice(0, 3), 1), (slice(3, 6), 2), (slice(6, 11), 2)):
                if s[part].size:
                    # never below what counts as nothing for a particle of its size
                    least = 1e-3*6*np.pi*self.mu*a**k*speed
                    s[part] = TOP/max([least] + [np.max(np.abs(v[part])) for v in vals])
            scale.append(s)
        cat = lambda vs: [int(x) for v, s in zip(vs, scale) for x in vlib.q(v*s, 1)]
        e['held'], e['base'], e['pairs'] = cat(held), cat(fars), []
        for p, q, n, fp, fq in pairs:
            vs = [np.zeros(len(h)) for h in held]
            vs[p], vs[q] = fp, fq
            e['pairs'].append({'p': p+1, 'q': q+1, 'n': list(n), 'part': cat(vs)})
        return e

    def describe(self):
        return {'pos': self.pos, 'cut': self.cut, 'box': self.box, 'mu': self.mu,
                'settings': self.settings}


def judge(chk, worlds, what):
    probs = [p for w in worlds for p in w.problems]
    res = vlib.solves(probs, func=child.resistance_chunk)
    k, events, owner = 0, [], []
    for w in worlds:
        e = w.events(res[k:k+len(w.problems)])
        errs = [r['error'] for r in res[k:k+len(w.problems)] if 'error' in r]
        k += len(w.problems)
        events += e
        owner += [(w, errs)]*len(e)
    ok = True
    for c in range(0, len(events), 400):
        ok = chk.validate('SDNearTrace', 'SDNearTrace.cfg', events[c:c+400], 0,
                          describe=lambda i: dict(owner[c+i][0].describe(),
                                                  errors=owner[c+i][1][:2]))
        if not ok:
            return False
    chk.count(traces_validated_against_impl=len(worlds), configurations=len(worlds),
              pairs=sum(len(w.pairs) for w in worlds))
    if worlds:
        chk.sample({what: worlds[-1].describe()})
    return True
