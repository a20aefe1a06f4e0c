"""Two particles seen along and across their line of centres: events of
SDPairTrace and SDFarTrace."""
import numpy as np

import child
import vlib

TOP = 1e6
NAMES = ['XA', 'YA', 'YB', 'XC', 'YC', 'XG', 'YG', 'YH', 'XM', 'YM', 'ZM']
FOLDER = vlib.REPO + '/stokesian_dynamics/resistance_scalars/'


def table(d=False):
    """Scalars [name, 11 or 12, separation, size ratio], and both axes."""
    t = np.load(FOLDER + 'scalars_general_resistance%s.npy' % ('_d' if d else ''))
    s = np.loadtxt(FOLDER + 'values_of_s_dash.txt')
    lam = np.loadtxt(FOLDER + 'values_of_lambda.txt')
    lam = np.sort(np.unique(np.concatenate([lam, 1/lam]).round(12)))
    return t, s, lam


def frame(rng, e):
    """Rows e, f, g: right-handed."""
    x = rng.normal(size=3)
    f = x - e*(x @ e)
    f /= np.linalg.norm(f)
    return np.array([e, f, np.cross(e, f)])


def strain(c):
    """Tensor from ee, ef, eg, fg, (ff-gg)/2."""
    ee, ef, eg, fg, dd = c
    return np.array([[ee, ef, eg], [ef, -ee/2 + dd, fg], [eg, fg, -ee/2 - dd]])


def unstrain(t):
    return np.array([t[0, 0], t[0, 1], t[0, 2], t[1, 2], (t[1, 1] - t[2, 2])/2])


def to_local(B, v):
    """Vector of 11 (work-conjugate components) to U, O, E in the frame."""
    t = np.einsum('k,kab->ab', v[6:11], child.BASIS)
    return B @ v[:3], B @ v[3:6], unstrain(B @ t @ B.T)


def from_local(B, U, O, E):
    t = B.T @ strain(E) @ B
    return np.concatenate([B.T @ U, B.T @ O, np.einsum('ab,kab->k', t, child.BASIS)])


def dimensional(t, a, mu):
    """One sphere's scalars with their dimensions: {block: {x1: ...}}."""
    k = dict(zip(NAMES, t))
    sc = {'A': 6*np.pi*a, 'B': 4*np.pi*a**2, 'C': 8*np.pi*a**3,
          'G': 4*np.pi*a**2, 'H': 8*np.pi*a**3, 'M': 20/3*np.pi*a**3}
    return {b: {z.lower() + str(g+1): k[z + b][g]*s*mu for z in 'XYZ' if z + b in k
                for g in (0, 1)} for b, s in sc.items()}


def coefficients(t):
    """As the specification's Coefficients."""
    out = []
    for i in (0, 1):
        a, b = t[i], t[1-i]
        out.append({'FA': a['A'], 'FB': {'y1': a['B']['y1'], 'y2': b['B']['y2']},
                    'FG': {'x1': a['G']['x1'], 'y1': a['G']['y1'],
                           'x2': b['G']['x2'], 'y2': b['G']['y2']},
                    'TB': a['B'], 'TC': a['C'],
                    'TH': {'y1': a['H']['y1'], 'y2': b['H']['y2']},
                    'SG': a['G'], 'SH': a['H'], 'SM': a['M']})
    return out


# Which part of whose motion a block multiplies
USES = {'FA': 'U', 'FB': 'O', 'FG': 'E', 'TB': 'U', 'TC': 'O', 'TH': 'E',
        'SG': 'U', 'SH': 'O', 'SM': 'E'}


def units(rng, a):
    """Velocity, rotation and strain units of the two spheres' motions."""
    return [{'U': 1., 'O': 1/a[i], 'E': 1/a[i]} for i in (0, 1)]


# To which the two views of a pair agree in the table
DIGITS, VIEWS = 3e-10, 8e-6


def quantise(cs, m, un, held, a, mu, far=None, tol=12):
    """Integer coefficients and loads: every row of every sphere in a unit of
    its own. cs: list of dimensional coefficient sets."""
    out = [[{}, {}] for _ in cs]
    tols = [{}, {}]
    big = coefficients([dimensional(np.full([11, 2], DIGITS), max(a), mu)]*2)[0]
    got, fars = [{}, {}], [{}, {}]
    for i in (0, 1):
        for row in 'FTS':
            vals, err = {}, 0.
            for n, c in enumerate(cs):
                for b in c[i]:
                    if b[0] != row:
                        continue
                    for z, x in c[i][b].items():
                        who = i if z[1] == '1' else 1 - i
                        vals[n, b, z] = x*un[who][USES[b]]
                        if not any(m[who][USES[b]]):
                            vals[n, b, z] = 0.
                        elif z[1] == '2':
                            err += 5*(big[b][z] + (
                                b in ('FA', 'TC', 'SM'))*VIEWS*abs(x))*un[who][USES[b]]
            h = held[i][row]
            top = max([abs(x) for x in vals.values()] + [1e-300])
            if far is not None:
                top = max(top, np.max(np.abs(far[i][row])))
            sc = TOP/top
            for (n, b, z), x in vals.items():
                out[n][i].setdefault(b, {})[z] = vlib.qi(x, sc)
            tols[i][row] = tol + min(int(1 + err*sc), 10**8)
            key = 'S3' if row == 'S' else row
            k = 3 if row == 'S' else 1
            got[i][key] = vlib.q(h*k, sc)
            if far is not None:
                fars[i][key] = vlib.q(far[i][row]*k, sc)
    return out, got, fars, tols


def local_held(B, f):
    """Loads (22 components) as F, T, S of both spheres in the frame."""
    out = []
    for i in (0, 1):
        F, T, S = to_local(B, f[11*i:11*i+11])
        out.append({'F': F, 'T': T, 'S': S})
    return out


def two_spheres(a, r, e, scale, rng):
    x = rng.uniform(-3, 3, 3)*scale
    return {'sphere_sizes': [a[0]*scale, a[1]*scale],
            'sphere_positions': [x, x + r*scale*e], 'dumbbell_sizes': [],
            'dumbbell_positions': [], 'dumbbell_deltax': []}


def random_motion(rng, kind):
    """Small whole components; kind 0..5: one part of one sphere's motion
    only, otherwise everything."""
    m = [{'U': rng.randint(-3, 4, 3), 'O': rng.randint(-3, 4, 3),
          'E': rng.randint(-3, 4, 5)} for _ in (0, 1)]
    if kind < 6:
        for i in (0, 1):
            for p in 'UOE':
                if (i, p) != (kind//3, 'UOE'[kind % 3]):
                    m[i][p] = m[i][p]*0
                elif not m[i][p].any():
                    m[i][p][rng.randint(3)] = 1
    return m


def motion_vector(B, m, un):
    return np.concatenate([from_local(
        B, *(np.array(m[i][p])*un[i][p] for p in 'UOE')) for i in (0, 1)])
