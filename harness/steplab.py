"""Runs of the simulation script recorded evaluation by evaluation, as events
of SDStepTrace."""
import math

import numpy as np

import child
import solvelab
import vlib

Q = 1e6            # unit of coordinates and velocities
MQ = 2e5           # unit of rotation markers, relative to the sphere's size
TOL = 4


# --- The user's input function --------------------------------------------------

def coeff(c, h):
    """c[0] + c[1] h + c[2] h^2, h in half frames."""
    return sum(np.array(x, dtype=float)*h**k for k, x in enumerate(c))


def make_law(law):
    """law: fields {name: [polynomial in time per particle]}, springs
    {name: [3x3 matrix per particle]} acting on the particle's coordinates,
    fixed numbers of particles with prescribed velocities (ufte/ufteu/duf),
    flow: U, O, E, c polynomials; box."""
    child.STATE['evals'] = []
    first = {}

    def values(n, posdata, frameno, timestep, last_velocities, form):
        h = 2*frameno
        sp, dp, dd = posdata[1], posdata[4], posdata[5]
        place = {'Fa': sp, 'Ta': sp, 'Ua': sp, 'Sa': sp, 'Fb': dp, 'Ub': dp,
                 'DFb': dd, 'HalfDUb': dd, 'Oa': sp}
        v = {}
        # Spins may differ between the first place the particles are seen at
        # in a half frame and any other
        here = np.concatenate([np.array(x, dtype=float).reshape(-1) for x in (sp, dp)])
        there = int(not np.allclose(first.setdefault(h, here), here, 0, 1e-12))
        for name, rows in law['fields'].items():
            out = []
            for j, c in enumerate(rows):
                if c is None:
                    out.append(None)
                    continue
                x = coeff(c, h)
                m = law.get('springs', {}).get(name)
                if m is not None and m[j] is not None:
                    x = x + np.array(m[j]) @ place[name][j]
                out.append(x)
            v[name] = out
        for name, tab in law.get('table', {}).items():
            v[name] = tab[there][int(round(h))]
        fl = law.get('flow') or NOFLOW
        if fl:
            v['U_inf'] = coeff(fl['U'], h)/Q
            v['O_inf'] = coeff(fl['O'], h)/fl['d']
            v['centre'] = np.array(fl['c'], dtype=float)/Q
            E = coeff(fl['E'], h)/fl['d']
            if 'spin' in fl:
                v['O_inf'] = np.array(fl['spin'][there][int(round(h))])*fl['unit']
            if form != 'fts' or len(posdata[0]) == 0:
                v['Ea'] = [E]*max(1, len(posdata[0]))
        b = law.get('box')
        if b:
            L = np.array(b['L'], dtype=float)
            v['bl'], v['tr'] = -L/2, L/2
            sh = solvelab.shear(b['rate']*frameno*timestep + b.get('bend', 0.)
                                * (frameno*timestep)**2, b['flow'], b['grad'])
            v['Et'], v['Ot'] = sh['Et'], sh['Ot']
        if law.get('mu'):
            v['mu'] = law['mu']
        child.STATE['evals'].append(
            {'frameno': frameno, 'vals': v, 'there': there,
             'posdata': tuple(np.array(x, dtype=float) for x in posdata)})
        if law.get('die') is not None and frameno >= law['die']:
            import os
            os._exit(77)
        return v
    return values


# --- Worlds ----------------------------------------------------------------------

def drag(pos, mu=1.):
    """Resistances of isolated particles, for choosing velocities."""
    a = np.array(pos['sphere_sizes'])
    b = np.array(pos['dumbbell_sizes'])
    return {'Fa': 6*np.pi*mu*a, 'Ta': 8*np.pi*mu*a**3,
            'Fb': 12*np.pi*mu*b, 'DFb': 12*np.pi*mu*b}


def world(pos, form, scheme, law, dt=(1, 10), frames=4, settings=None, opts=None,
          plane=False, every=1, each=True, **kw):
    s = {'timestepping_scheme': scheme, 'invert_m_every': every,
         'rk4_generate_minfinity_for_each_stage': each,
         'fully_2d_problem': plane, 'save_positions_every_n_timesteps': 1,
         'save_forces_every_n_timesteps': 1}
    s.update(settings or {})
    opts = opts or {}
    s['use_drag_Minfinity'] = bool(opts.get('drag'))
    s['use_Minfinity_only'] = bool(opts.get('minf_only'))
    if 'cutoff' in opts:
        s['cutoff_factor'] = opts['cutoff']
    return dict({'pos': pos, 'form': form, 'scheme': scheme, 'law': law,
                 'dt': dt, 'frames': frames, 'settings': s, 'opts': opts,
                 'plane': plane, 'every': every, 'each': each}, **kw)


DRAG = {'drag': True, 'minf_only': True}
NOFLOW = {'U': [[0, 0, 0]], 'O': [[0, 0, 0]], 'E': [[[0]*3]*3], 'c': [0, 0, 0],
          'd': 8}


def random_flow(rng, steady=False):
    k = 1 if steady else 2
    E = []
    for _ in range(k):
        e = rng.randint(-1, 2, (3, 3))
        e = e + e.T
        e[2, 2] = -e[0, 0] - e[1, 1]
        E.append(e.tolist())
    return {'U': (rng.randint(-8, 9, (k, 3))*5e4*np.array([[1], [.2]])[:k]).tolist(),
            'O': rng.randint(-2, 3, (k, 3)).tolist(), 'E': E,
            'c': (rng.randint(-20, 21, 3)*5e4*rng.randint(0, 2)).tolist(), 'd': 16}


def random_fields(rng, pos, form, time=True, springs=True, size=1.):
    """Random loads (and velocities of particles with prescribed ones)."""
    ns, nd = len(pos['sphere_sizes']), len(pos['dumbbell_sizes'])
    name, ks, kd = form
    res = drag(pos)
    pres = solvelab.prescribed(form, ns, nd)
    names = {'F': 'Fa', 'T': 'Ta', 'U': 'Ua', 'Fb': 'Fb', 'Db': 'DFb',
             'Ub': 'Ub', 'Hb': 'HalfDUb'}
    fields, spr = {}, {}
    for f, g in names.items():
        if f not in pres:
            continue
        n = ns if f in solvelab.SPHERE else nd
        fields[g], spr[g] = [None]*n, [None]*n
        for j in pres[f]:
            w = size*(res[g][j] if g in res else 1.)
            c = [rng.uniform(-1, 1, 3)*w]
            if time:
                c.append(rng.uniform(-.15, .15, 3)*w)
                # so that no stage coincides with the end of a frame
                c.append(rng.uniform(.01, .03, 3)*w)
            fields[g][j] = [x.tolist() for x in c]
            if springs and g != 'Ta':
                spr[g][j] = (rng.uniform(-.25, .25, (3, 3))*w).tolist()
    if name == 'fts' and ns:
        fields['Sa'] = [[np.zeros([3, 3]).tolist()]]*ns
    return fields, spr


# --- Running and recording ---------------------------------------------------------

def script(w, **kw):
    n, d = w['dt']
    t = {'pos': w['pos'], 'settings': w['settings'], 'law': make_law,
         'law_args': {'law': dict(w['law'], **kw.pop('law', {}))},
         'argv': [1001, 1001, repr(n/d), w['frames'], w['form'][0]]}
    t.update(kw)
    return t


def same(a, b):
    return all(np.array_equal(x, y) for x, y in zip(a, b))


def points(posdata):
    return np.concatenate([posdata[1].reshape(-1, 3), posdata[4].reshape(-1, 3),
                           posdata[5].reshape(-1, 3)])


def output(cwd):
    o = vlib.outputs(cwd)['final']
    return list(o.values())[-1] if o else None


class Run:
    """One recorded run."""

    def __init__(self, w, res, out, first=0):
        self.w, self.res, self.out, self.first = w, res, out, first
        ns, nd = len(w['pos']['sphere_sizes']), len(w['pos']['dumbbell_sizes'])
        self.ns, self.nd = ns, nd
        self.ok = res.get('status') == 'ok' and out is not None
        self.calls = res.get('evals', []) if isinstance(res, dict) else []
        # A restarted run first looks at the input of frame 0, for its form
        while first and self.calls and self.calls[0]['frameno'] == 0:
            self.calls = self.calls[1:]
        self.rows = []
        if self.ok:
            try:
                n = out['centres'].shape[0]
                dx = out['deltax'].reshape(n, nd, 3)
                self.rows = [np.concatenate([out['centres'][k].reshape(-1, 3), dx[k]])
                             for k in range(n)]
                self.rots = [out['sphere_rotations'][k].reshape(ns, 2, 3)
                             for k in range(n)]
                m = out['Fa'].shape[0]
                self.forces = [np.concatenate(
                    [out[g][k].reshape(-1) for g in ('Fa', 'Fb', 'DFb', 'Sa')])
                    for k in range(m)]
                self.ok = n == w['frames'] + 1 and m == w['frames']
            except Exception as e:
                self.ok = False
                res['detail'] = 'output arrays: %s' % e
        # Unique evaluations, in the order of their calls
        self.unique, self.of = [], []
        for c in self.calls:
            u = self.unique[-1] if self.unique else None
            if u is None or u['frameno'] != c['frameno'] or not same(
                    u['posdata'], c['posdata']):
                self.unique.append(c)
            self.of.append(len(self.unique) - 1)
        self.cut()

    def cut(self):
        """Which calls belong to which frame: a frame's calls begin where the
        configuration of its start is first used at its start time."""
        self.frame = []
        f = self.first
        for c in self.calls:
            if (self.ok and f + 1 < len(self.rows) and c['frameno'] == f + 1
                    and self.at(c, f+1) and (not self.at(c, f) or self.frozen(f))):
                f += 1
            self.frame.append(f)
        # Stages which an evaluation may serve, by its frame and time
        self.stage = {}
        seen = {}
        for i, c in enumerate(self.calls):
            u, f = self.of[i], self.frame[i]
            if u in self.stage:
                continue
            h = 2*(c['frameno'] - f)
            k = {0: 1, 1: 2, 2: 4}.get(h, 9)
            if k == 2 and (f, 2) in seen:
                k = 3
            self.stage[u] = (f, k)
            seen[f, k] = u
        self.by = seen
        for f in {f for f, k in seen}:
            if (f, 2) in seen and (f, 3) not in seen:
                seen[f, 3] = seen[f, 2]

    def at(self, c, f):
        return (np.array_equal(points(c['posdata']), self.rows[f])
                and np.array_equal(c['posdata'][2].reshape(-1), self.rots[f].reshape(-1)))

    def frozen(self, f):
        """Nothing moves in frame f (one evaluation is enough to know)."""
        return (self.w['scheme'] != 'rk4' and np.array_equal(self.rows[f], self.rows[f+1])
                and np.array_equal(self.rots[f], self.rots[f+1]))

    def wanted(self):
        """Evaluations whose far field may be in use, for each evaluation."""
        far = not self.w['opts'].get('drag')
        out = []
        for u in range(len(self.unique)):
            f, k = self.stage.get(u, (0, 9))
            out.append([self.by[g, 1] for g in range(self.first, f+1)
                        if far and (g, 1) in self.by and self.by[g, 1] < u])
        return out

    def task(self):
        return {'cwd': vlib.newdir('s'), 'evals': self.unique, 'form': self.w['form'][0],
                'opts': self.w['opts'], 'wanted': self.wanted(),
                'settings': self.w['settings'], 'dt': self.w['dt'][0]/self.w['dt'][1]}

    def quant(self, r):
        return {'rel': vlib.q(np.concatenate([r['Ua'], r['Ub'], 2*r['HalfDUb']]), Q),
                'force': vlib.q(np.concatenate(
                    [r[g].reshape(-1) for g in ('Fa', 'Fb', 'DFb', 'Sa')]), self.fq)}

    def flow(self, v):
        fl = self.w['law'].get('flow') or NOFLOW
        d = fl['d']
        E = v.get('Ea')
        spin = [0, 0, 0]
        O = vlib.q(np.array(v.get('O_inf', [0, 0, 0]))*d, 1)
        if 'spin' in fl:
            spin = vlib.q(np.array(v['O_inf'])/fl['unit'], 1)
            O = [0, 0, 0]
        return {'U': vlib.q(v.get('U_inf', [0, 0, 0]), Q), 'O': O,
                'E': vlib.q(np.array(E[0])*d, 1) if E is not None
                else [[0]*3]*3,
                'c': vlib.q(v.get('centre', [0, 0, 0]), Q), 'd': d, 'spin': spin}

    def tilt(self, frameno):
        b = self.w['law'].get('box')
        if not b:
            return 0
        t = frameno*self.w['dt'][0]/self.w['dt'][1]
        return vlib.qi((b['rate']*t + b.get('bend', 0.)*t*t)*b['L'][b['grad']], Q)

    def marks(self, k):
        return vlib.q((self.rots[k] - self.rows[k][:self.ns, None, :])
                      / np.array(self.w['pos']['sphere_sizes']).reshape(-1, 1, 1), MQ)

    def events(self, answers):
        """answers: from child.resolve."""
        w = self.w
        b = w['law'].get('box')
        marked = bool(w.get('marked'))
        ns, nd = self.ns, self.nd
        big = [np.max(np.abs(x)) for x in getattr(self, 'forces', []) if x.size] + [1e-6]
        big += [float(np.max(np.abs(r[g]))) for row in (
            answers if isinstance(answers, list) else []) for r in row.values()
                if 'error' not in r for g in ('Fa', 'Fb', 'DFb', 'Sa') if r[g].size]
        self.fq = 2e7/max(big)
        cfg = {'scheme': w['scheme'], 'dn': w['dt'][0], 'dd': w['dt'][1],
               'plane': bool(w['plane']), 'every': w['every'], 'each': bool(w['each']),
               'first': self.first, 'kinds': ['c']*(ns+nd) + ['s']*nd,
               'angle': w.get('angle', {'c': 0, 's': 1, 'h': 1}),
               'norm': w.get('norm', 1), 'marked': marked, 'tol': w.get('tol', TOL),
               'ttol': w.get('ttol', 200), 'free': bool(w.get('free')),
               'ftol': w.get('ftol', 8), 'mtol': w.get('mtol', 40),
               'box': {'on': False}}
        if b:
            cfg['box'] = {'on': True, 'L': vlib.q(b['L'], Q), 'flow': b['flow']+1,
                          'grad': b['grad']+1, 'coarse': 1000, 'slack': int(.004*Q)}
        evs = []
        start = self.rows[self.first] if self.ok else (
            points(self.calls[0]['posdata']) if self.calls else np.zeros([ns+2*nd, 3]))
        evs.append({'e': 'start', 'cfg': cfg, 'x': vlib.q(start, Q),
                    'marks': self.marks(self.first) if marked and self.ok else []})
        f = self.first
        for i, c in enumerate(self.calls if self.ok else []):
            while self.frame[i] > f:
                evs.append(self.row(f))
                f += 1
            u = self.of[i]
            ans = []
            row = answers[u] if isinstance(answers, list) else {}
            fk = self.stage[u]
            for s, r in row.items():
                if 'error' in r:
                    continue
                a = self.quant(r)
                a['spin'] = []
                if marked:
                    a['spin'] = [vlib.q(x, 1) for x in w['spins'][c['there']][int(round(2*c['frameno']))]]
                labels = [g for g, v in self.by.items() if v == s or (
                    self.unique[v]['frameno'] == self.unique[s]['frameno']
                    and np.array_equal(points(self.unique[v]['posdata']),
                                       points(self.unique[s]['posdata'])))]
                if w['opts'].get('drag'):
                    labels = [(g, k) for g in range(self.first, fk[0]+1) for k in range(1, 5)]
                for g in labels:
                    ans.append(dict(a, src=list(g)))
            evs.append({'e': 'eval', 't': int(round(2*c['frameno'])),
                        'at': vlib.q(points(c['posdata']), Q), 'ans': ans,
                        'flow': self.flow(c['vals'])})
        if self.ok:
            while f < w['frames']:
                evs.append(self.row(f))
                f += 1
        evs.append({'e': 'end', 'ok': self.ok, 'frames': w['frames']})
        return evs

    def row(self, f):
        # The forces of the frame a run restarts from are those of its backup
        kept = f == self.first > 0
        return {'e': 'row', 'x': vlib.q(self.rows[f+1], Q),
                'marks': self.marks(f+1) if self.w.get('marked') else [],
                'force': [] if kept else vlib.q(self.forces[f], self.fq), 'tilt': self.tilt(f+1)}

    def describe(self):
        w = self.w
        return {'pos': w['pos'], 'form': w['form'], 'scheme': w['scheme'],
                'dt': w['dt'], 'frames': w['frames'], 'settings': w['settings'],
                'law': w['law'], 'status': self.res.get('status'),
                'detail': self.res.get('detail'),
                'rows': [x.tolist() for x in self.rows[:8]]}


def record(worlds, timeout=300):
    """Run the script for every world."""
    res, tasks = [], [script(w) for w in worlds]
    res = vlib.runs(tasks, timeout=timeout)
    return [Run(w, r if isinstance(r, dict) else {}, output(t['cwd']))
            for w, t, r in zip(worlds, tasks, res)]


def spin_table(rng, scheme, frames, ns, axes, K=27, most=3, moving=True):
    """Angular velocities at every half frame, as integer vectors, such that
    every frame turns every sphere by a whole number of basic angles about
    one of the axes."""
    tab = [[None]*ns for _ in range(2*frames+1)]
    alt = {}
    turns = [[0]*ns for _ in range(frames)]
    for i in range(ns):
        def pick():
            d = np.array(axes[rng.randint(len(axes))])
            return d*K*int(rng.choice([m for m in (1, 1, 1, 1, 2, -1, -1, -2, 3)
                                         if abs(m) <= most]))
        w = pick() if scheme != 'rk4' else pick()//K*int(rng.randint(-20, 20))
        tab[0][i] = w
        for f in range(frames):
            W = pick() if (f > 0 or scheme == 'rk4') else w
            turns[f][i] = W
            if scheme == 'rk4':
                mid = W + rng.randint(-9, 10, 3)
                tab[2*f+1][i] = mid
                other = W + rng.randint(-9, 10, 3) if moving else mid
                alt[2*f+1, i] = other
                tab[2*f+2][i] = 6*W - tab[2*f][i] - 2*mid - 2*other
            else:
                if scheme == 'ab2' and f > 0:
                    w = (2*W + w)//3 if f <= 3 and not ((2*W + w) % 3).any() else w
                else:
                    w = W
                tab[2*f][i] = w
        if scheme != 'rk4':
            for h in range(2*frames+1):
                if tab[h][i] is None:
                    tab[h][i] = tab[h-1][i] if tab[h-1][i] is not None else w
    return [[[np.array(alt.get((h, i), x) if there else x).tolist()
              for i, x in enumerate(row)] for h, row in enumerate(tab)]
            for there in (0, 1)]


ANGLES = [(3, 4, 5), (4, 3, 5), (0, 1, 1), (12, 5, 13), (-3, 4, 5), (24, 7, 25)]
AXES = {1: [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
        3: [[1, 2, 2], [2, -1, 2], [-2, 2, 1], [3, 0, 0], [0, 0, 3], [0, -3, 0]],
        7: [[2, 3, 6], [-3, 6, 2], [6, 2, -3], [7, 0, 0]]}


def spinning(rng, w, by='torque', K=27):
    """Give the spheres of a world prescribed spins, by torques or by the
    vorticity of the background."""
    c, s, h = ANGLES[rng.randint(len(ANGLES))]
    n, d = w['dt']
    N = [1, 3, 7][rng.randint(3)]
    ns = len(w['pos']['sphere_sizes'])
    theta = math.atan2(s, c)
    unit = theta/(N*K*n/d)
    axes = AXES[N]
    if w['scheme'] == 'ab2':
        # Only one axis: the combinations stay whole multiples
        axes = [axes[rng.randint(len(axes))]]
    same = ns if by == 'torque' else 1
    tab = spin_table(rng, w['scheme'], w['frames'], same, axes, K,
                     {25: 2, 13: 3}.get(h, 4), by == 'torque')
    if w['scheme'] == 'ab2':
        # multiples of the axis with equal parity, in units of K
        for i in range(same):
            m = 0
            par = int(rng.randint(2))
            for f in range(w['frames']+1):
                m = int(rng.choice([-1, 1] if par or h == 25 else [-2, 0, 2]))
                if h == 13 and not par:
                    m = min(m, 0)
                for hh in (2*f, 2*f+1):
                    if hh < len(tab[0]):
                        tab[0][hh][i] = tab[1][hh][i] = (np.array(axes[0])*K*m).tolist()
    mu = w['law'].get('mu') or 1.
    w = dict(w, marked=True, angle={'c': c, 's': s, 'h': h}, norm=N*K)
    law = dict(w['law'])
    w['law'] = law
    if by == 'torque':
        a = np.array(w['pos']['sphere_sizes'])
        law['fields'] = dict(law['fields'])
        law['fields'].pop('Ta', None)
        law['table'] = {'Ta': [[[(np.array(x)*unit*8*np.pi*mu*a[i]**3).tolist()
                                 for i, x in enumerate(row)] for row in t] for t in tab]}
        w['spins'] = tab
    else:
        law['flow'] = dict(law.get('flow') or NOFLOW, spin=[[r[0] for r in t] for t in tab],
                           unit=unit)
        w['spins'] = [[[[0, 0, 0]]*ns for _ in t] for t in tab]
    dirs = rng.normal(size=(ns, 2, 3))
    dirs /= np.linalg.norm(dirs, axis=2)[:, :, None]
    a = np.array(w['pos']['sphere_sizes']).reshape(-1, 1, 1)
    w['pos'] = dict(w['pos'], sphere_rotations=(
        np.array(w['pos']['sphere_positions']).reshape(-1, 1, 3) + dirs*a).tolist())
    return w


def twins(a, b, frames=None):
    """Events comparing run a with run b, started from other images."""
    out = []
    for f in range(min(len(a.rows), len(b.rows))):
        out.append({'e': 'twin', 'xa': vlib.q(a.rows[f], Q), 'xb': vlib.q(b.rows[f], Q),
                    'tilt': a.tilt(f)})
    return out


def judge(chk, runs, what, timeout=600, pairs=()):
    vlib.warm()
    answers = vlib.pmap(child.resolve, [r.task() for r in runs], timeout=timeout)
    parts, events, owner = [], [], []
    for r, a in zip(runs, answers):
        e = r.events(a)
        for a, b in pairs:
            if runs[a] is r:
                e += twins(runs[a], runs[b])
        events += e
        owner += [r]*len(e)
        if len(events) > 3000:
            parts.append((events, owner))
            events, owner = [], []
    if events:
        parts.append((events, owner))
    for events, owner in parts:
        if not chk.validate('SDStepTrace', 'SDStepTrace.cfg', events, 0,
                            describe=lambda i: {'run': owner[i].describe(),
                                                'event': events[i]}):
            return False
    chk.count(traces_validated_against_impl=len(runs))
    chk.count(runs=len(runs), frames=sum(r.w['frames'] for r in runs))
    if runs:
        d = runs[-1].describe()
        for k in ('rows', 'law'):
            d.pop(k)
        chk.sample({what: d})
    return True
