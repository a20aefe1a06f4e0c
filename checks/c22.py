"""C22: the resistance tables are what their generating scripts produce."""
import glob
import importlib
import json
import os
import re
import shutil
import subprocess
import sys

import numpy as np

import child
import tablelab
import vlib

UNIT = 1e6
GROUPS = [('Z12M',), ('Z11M',), ('Y11M', 'Y12M'), ('Y11A', 'Y12A', 'Y11B', 'Y12B'),
          ('Y11C', 'Y12C', 'Y11H', 'Y12H'), ('Y11G', 'Y12G'), ('X11A', 'X12A'),
          ('X11G', 'X12G'), ('X11M', 'X12M', 'X11C', 'X12C')]
# Other points at which near-field scalars are asked for, besides the stored ones
OTHER_SEPS = [2.003, 2.015]
OTHER_RATS = [.5, 2., .25, 4.]

STUB = '''
import functions_near_field_original as original
from functions_near_field_original import *
import json

with open('known_values.json') as f:
    known = json.load(f)


def remembering(name):
    function = getattr(original, name)

    def value(xi, lam):
        try:
            key = '%s %.9e %.9e' % (name, xi, lam)
        except TypeError:
            return function(xi, lam)
        return known[key] if key in known else function(xi, lam)
    value.__name__ = name
    return value


for name in sorted({k.split()[0] for k in known}):
    globals()[name] = remembering(name)
'''


# --- In the child ---------------------------------------------------------------

def functions(task):
    """Values of some near-field functions at the asked points."""
    sys.path.insert(0, tablelab.SOURCE)
    sys.setrecursionlimit(20000)
    try:
        m = importlib.import_module('functions_nearfield')
        fs = {n: getattr(m, n) for n in task['names']}
    except (ImportError, AttributeError):
        return 'absent'
    out = {}
    for n, f in fs.items():
        for s in task['seps']:
            for lam in task['rats']:
                try:
                    out['%s %.9e %.9e' % (n, s - 2, lam)] = float(f(s - 2, lam))
                except TypeError:
                    return 'absent'
    return out


def put(d, near, mid, rats):
    np.savetxt(d + '/values_of_lambda.txt', rats, fmt='%.6g')
    np.savetxt(d + '/values_of_s_dash_nearfield.txt', near, fmt='%.6g')
    np.savetxt(d + '/values_of_s_dash_midfield.txt', mid, fmt='%.6g')


def near_script(task):
    """The near-field script with lists, and values of its functions known."""
    d = tablelab.folder()
    put(d, task['seps'], [3.], task['rats'])
    if task['known']:
        os.rename(d + '/functions_nearfield.py', d + '/functions_near_field_original.py')
        with open(d + '/functions_nearfield.py', 'w') as f:
            f.write(STUB)
        with open(d + '/known_values.json', 'w') as f:
            json.dump(task['known'], f)
    ok, text = tablelab.script(d, 'generate_scalars_nearfield.py', 800)
    t = tablelab.load(d, 'scalars_general_resistance_nearfield.npy')
    rows = tablelab.printed(d + '/scalars_general_resistance_nearfield.txt')
    shutil.rmtree(os.path.dirname(d), ignore_errors=True)
    return {'ok': ok and t is not None, 'text': text, 'table': t, 'rows': rows}


def mid_script(task):
    """The mid-field script with few separations, on the Fortran program."""
    d = tablelab.folder()
    put(d, [2.01], task['seps'], task['rats'])
    f = d + '/helen_fortran'
    if shutil.which('gfortran'):
        p = subprocess.run(['gfortran', '2sphere.f', 'base.f', 'reflect.f', '-O1', '-o', 'lamb.exe'],
                           cwd=f, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return {'ok': False, 'text': p.stdout[-1500:]}
    elif not os.access(f + '/lamb.exe', os.X_OK):
        return 'absent'
    ok, text = tablelab.script(d, 'generate_scalars_midfield.py', 600)
    out = {'ok': ok, 'text': text,
           'table': tablelab.load(d, 'scalars_general_resistance_midfield.npy'),
           'rows': tablelab.printed(d + '/scalars_general_resistance_midfield.txt'),
           'mobility': tablelab.printed(d + '/scalars_general_mobility_midfield.txt')}
    shutil.rmtree(os.path.dirname(d), ignore_errors=True)
    return out


def session(task):
    """Lists and tables put in place and scripts run: the folder after each."""
    d = tablelab.folder()
    out = []
    for o in task['ops']:
        ok, text = True, ''
        if o['op'] == 'renew':
            put(d, o['near'][0], o['mid'][0], o['rats'])
            for n, k in (('near', 'nearfield'), ('mid', 'midfield')):
                np.save(d + '/scalars_general_resistance_%s.npy' % k,
                        tablelab.as_file(o[n][1]))
        else:
            ok, text = tablelab.script(d, {
                'combine': 'combine_scalars.py', 'drag': 'subtract_R2Binfinitydrag_from_scalars.py',
                'subtract': 'subtract_R2Binfinity_from_scalars.py'}[o['op']])
        name = {'combine': '', 'subtract': '_d', 'drag': '_d_drag', 'renew': '?'}[o['op']]
        out.append({'ok': ok, 'text': text,
                    'seps': tablelab.loadtxt(d, 'values_of_s_dash.txt'),
                    'general': tablelab.load(d, 'scalars_general_resistance.npy'),
                    'corrected': tablelab.load(d, 'scalars_general_resistance_d.npy'),
                    'dragged': tablelab.load(d, 'scalars_general_resistance_d_drag.npy'),
                    'rows': tablelab.printed(d + '/scalars_general_resistance%s.txt' % name)})
    shutil.rmtree(os.path.dirname(d), ignore_errors=True)
    return out


def used(task):
    """The tables as simulations have them."""
    os.chdir(task['cwd'])
    child.boot(['1', '1'])
    try:
        import resistance_scalars.data as m
    except ImportError:
        return {}
    return {k: np.array(getattr(m, k)) for k in (
        's_dash_range', 'lam_range_with_reciprocals', 'XYZ_raw', 'XYZ_raw_no_d') if hasattr(m, k)}


def job(task):
    return {'functions': functions, 'near': near_script, 'mid': mid_script,
            'session': session, 'used': used}[task['kind']](task)


# --- Sessions ---------------------------------------------------------------------

NEAR = [2., 2.00001, 2.0001, 2.0005, 2.001, 2.003, 2.01, 2.02, 2.05, 2.5]
MID = [2.025, 2.05, 2.1, 2.25, 2.5, 3., 3.3, 4., 4.5, 6., 9.]
RATS = [1., .5, .25, .2, .1, .01, .8]
FRACTION = {1.: (1, 1), .5: (1, 2), .25: (1, 4), .2: (1, 5), .1: (1, 10), .01: (1, 100), .8: (4, 5)}


def chains(chk):
    r = vlib.tlc('GenTables', 'GenTables.cfg', workers=4)
    if not r.ok:
        print(r.text[-2000:])
        raise vlib.Infra('GenTables failed')
    chk.count(states=r.distinct, transitions=r.generated)
    out = [json.loads(m.group(1).replace('\\"', '"'))
           for m in re.finditer(r'^"VCH (.*)"$', r.text, re.M)]
    out.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return out


def both(rats):
    return sorted(set(rats) | {1/r for r in rats})


def fill(rng, chain):
    """The chain with actual lists and tables of recognisable entries."""
    ops = []
    for o in chain:
        if o['op'] == 'renew':
            near = rng.choice(NEAR, o['near'], replace=False)
            mid = rng.choice([m for m in MID if m not in near], o['mid'], replace=False)
            rats = rng.choice(RATS, o['rats'], replace=False)
            if rng.rand() < .4:
                near, mid, rats = np.sort(near), np.sort(mid), np.sort(rats)
            n = len(both(rats))
            ops.append({'op': 'renew', 'rats': rats.tolist(),
                        'near': (near, rng.randint(-20000, 20000, (len(near), n, 22))/1e3),
                        'mid': (mid, rng.randint(-20000, 20000, (len(mid), n, 22))/1e3)})
        else:
            ops.append({'op': o['op']})
    return ops


def sep(s):
    return [int(round(x*1e5)) for x in s]


def fraction(x):
    for r, (p, q) in FRACTION.items():
        if abs(x - r) < 1e-9:
            return [p, q]
        if abs(x - 1/r) < 1e-6*x:
            return [q, p]
    return [0, 1]


def ints(t):
    return vlib.q(tablelab.by_entry(t), UNIT) if t is not None and t.ndim == 4 else []


def lines(rows):
    return [{'sep': sep(r[:1])[0], 'rat': fraction(r[1]), 'own': int(r[2]),
             'val': vlib.q(r[3:], UNIT)} for r in rows or []]


def session_events(ops, seen):
    out, here = [], None
    for k, o in enumerate(ops):
        ok = isinstance(seen, list) and seen[k]['ok']
        e = {'op': o['op'], 'ok': bool(ok), 'tol': 3, 'unit': int(UNIT)}
        if o['op'] == 'renew':
            here = o
            e['fresh'] = k == 0
            for n in ('near', 'mid'):
                e[n] = {'seps': sep(o[n][0]), 'rats': [list(FRACTION[r]) for r in o['rats']],
                        'val': vlib.q(o[n][1], UNIT)}
        elif ok:
            s = seen[k]
            e.update(seps=sep(s['seps']), general=ints(s['general']),
                     corrected=ints(s['corrected']), dragged=ints(s['dragged']),
                     lines=lines(s['rows']))
            if o['op'] == 'subtract':
                order = sorted(np.concatenate([here['near'][0], here['mid'][0]]))
                e['far'] = [[vlib.q(tablelab.own(lam, x), UNIT) for lam in both(here['rats'])]
                            for x in order]
        else:
            e.update(seps=[], general=[], corrected=[], dragged=[], lines=[], far=[])
        out.append(e)
    return out


# --- Laws of the stored tables ------------------------------------------------------

def law(what, pairs, tol, ok=True, kind='', small=0):
    return {'op': 'law', 'law': kind, 'what': what, 'tol': tol, 'small': small, 'ok': bool(ok),
            'pairs': [[int(a), int(b)] for a, b in pairs]}


def relative(a, b, digits=1e8, floor=1e-12):
    """Pairs of numbers, in hundred-millionths of the second."""
    a, b = np.ravel(a), np.ravel(b)
    u = np.maximum(np.abs(b), floor)/digits
    return [(vlib.qi(x, 1/w), vlib.qi(y, 1/w)) for x, y, w in zip(a, b, u)]


def same(what, a, b, tol=100, **kw):
    """Tables that agree to a millionth of every entry."""
    if a is None or b is None or np.shape(a) != np.shape(b):
        return law(what, [], 0, ok=False)
    return law(what, relative(a, b, **kw), tol)


def rows_of(t, seps, rats):
    """The lines a printed table should have, in any order."""
    v = tablelab.by_entry(t)
    return sorted([round(s, 6), round(lam, 6), g] + v[i, j, 11*g:11*g+11].tolist()
                  for i, s in enumerate(seps) for j, lam in enumerate(rats) for g in (0, 1))


def printed_as(what, rows, t, seps, rats, tol=100):
    want = rows_of(t, seps, rats)
    got = sorted([round(r[0], 6), round(r[1], 6), int(r[2])] + r[3:] for r in rows or [])
    if len(want) != len(got) or any(len(a) != len(b) or a[:3] != b[:3] for a, b in zip(got, want)):
        return law(what, [], 0, ok=False)
    return law(what, relative([r[3:] for r in got], [r[3:] for r in want], floor=1e-6), tol)


def between(xi):
    return np.array([1/xi, np.log(1/xi), 1 + 0*xi, xi*np.log(1/xi)])


def stored_laws(chk):
    """Laws of the tables in the repository."""
    ev = []
    T = tablelab.load(tablelab.SOURCE, 'scalars_general_resistance.npy')
    D = tablelab.load(tablelab.SOURCE, 'scalars_general_resistance_d.npy')
    N = tablelab.load(tablelab.SOURCE, 'scalars_general_resistance_nearfield.npy')
    M = tablelab.load(tablelab.SOURCE, 'scalars_general_resistance_midfield.npy')
    s = tablelab.loadtxt(tablelab.SOURCE, 'values_of_s_dash.txt')
    sn = tablelab.loadtxt(tablelab.SOURCE, 'values_of_s_dash_nearfield.txt')
    sm = tablelab.loadtxt(tablelab.SOURCE, 'values_of_s_dash_midfield.txt')
    rats = np.array(both(tablelab.loadtxt(tablelab.SOURCE, 'values_of_lambda.txt').tolist()))
    ev.append({'op': 'ascending', 'seps': sep(s)})
    order = np.argsort(np.concatenate([sn, sm]), kind='stable')
    ev.append(same('the stored table has the near-field and mid-field entries in order',
                   T, np.concatenate([N, M], axis=2)[:, :, order]))
    ev.append(same('the stored list has the near and middle separations in order',
                   s, np.concatenate([sn, sm])[order]))
    far = np.array([[tablelab.own(lam, x) for lam in rats] for x in s])
    ev.append(law('the stored corrections are the table without the far field', [
        (vlib.qi(a, UNIT), vlib.qi(b, UNIT))
        for a, b in zip(np.ravel(tablelab.by_entry(D)), np.ravel(tablelab.by_entry(T) - far))
        if abs(b) < 1000], 3))
    ev.append(same('the stored corrections close to contact',
                   tablelab.by_entry(D), tablelab.by_entry(T) - far, floor=1e-2))
    for n, t in (('', T), ('_d', D)):
        u = tablelab.load(tablelab.USED, 'scalars_general_resistance%s.npy' % n)
        ev.append(same('simulations use the tables made', u, t))
        ev.append(printed_as('the stored printed table', tablelab.printed(
            tablelab.SOURCE + '/scalars_general_resistance%s.txt' % n), t, s, rats))
        ev.append(printed_as('the printed table beside the used one', tablelab.printed(
            tablelab.USED + '/scalars_general_resistance%s.txt' % n), t, s, rats))
    ev.append(printed_as('the stored printed mid-field table', tablelab.printed(
        tablelab.SOURCE + '/scalars_general_resistance_midfield.txt'), M, sm, rats))
    for n in ('values_of_s_dash.txt', 'values_of_lambda.txt'):
        ev.append(same('simulations use the lists made', tablelab.loadtxt(tablelab.USED, n),
                       tablelab.loadtxt(tablelab.SOURCE, n)))
    # Reciprocity
    for k, n in enumerate(tablelab.NAMES):
        if n[1] in 'ACM':
            for j, lam in enumerate(rats):
                if lam > 1:
                    o = int(np.argmin(np.abs(rats - 1/lam)))
                    a, b = T[k, 1, :, j], T[k, 1, :, o]*lam**tablelab.POWER[n[1]]
                    near = s < min(sm)
                    ev.append(law('reciprocity of the stored near-field', relative(
                        a[near], b[near]), 10, kind='reciprocal'))
                    ev.append(law('reciprocity of the stored mid-field', relative(
                        a[~near], b[~near]), 1500, kind='reciprocal'))
    # Corrections die away
    three = int(np.argmin(np.abs(s - 3)))
    ev.append(law('corrections die away with distance', [
        (vlib.qi(a, UNIT), vlib.qi(b, UNIT)) for a, b in zip(
            np.ravel(D[:, :, three]), np.ravel(D[:, :, -1]))], 100, kind='dies away', small=4000))
    # Continuing the near-field to the first middle separation
    at = int(np.sum(s < min(sm)))
    use = np.arange(at)[::2][-5:]
    w = np.linalg.lstsq(between(s[use] - 2), between(s[at] - 2.), rcond=None)[0]
    c = np.einsum('i,kgij->kgj', w, T[:, :, use])
    for j, lam in enumerate(rats):
        pairs = [(vlib.qi(c[k, g, j]*u, UNIT), vlib.qi(T[k, g, at, j]*u, UNIT))
                 for k, n in enumerate(tablelab.NAMES) for g in (0, 1)
                 for u in [max(1., 1/lam)**tablelab.POWER[n[1]]]]
        tol = JOIN if 1/2 < lam < 2 else JOIN_UNEQUAL
        if 1/50 < lam < 50:
            ev.append(law('near-field and mid-field join', pairs, tol, kind='joins'))
        elif any(abs(a - b) > tol + abs(b)/500 for a, b in pairs):
            chk.known('the near-field and mid-field branches of size ratio %g do not join at '
                      'scaled distance %g' % (lam, s[at]))
    # Mobility scalars are the inverse
    rows = {(round(r[0], 6), round(r[1], 6), int(r[2])): r[3:] for r in tablelab.printed(
        tablelab.SOURCE + '/scalars_general_mobility_midfield.txt') or []}
    ev += inverse('the stored mobility and resistance scalars', rows, M, sm, rats)
    return ev, {'T': T, 'N': N, 'M': M, 'sn': sn, 'sm': sm, 'rats': rats, 'D': D, 's': s}


# In units of the smaller sphere's isolated resistance (besides a 500th of the entry)
JOIN, JOIN_UNEQUAL = 10000, 320000


def inverse(what, rows, M, seps, rats):
    """Mobility (printed) times resistance is the identity, along the line of
    centres and about it, and across."""
    out = []
    name = {n: k for k, n in enumerate(tablelab.NAMES)}
    for i, x in enumerate(seps):
        for j, lam in enumerate(rats):
            if lam > 1:
                continue
            o = int(np.argmin(np.abs(rats - 1/lam)))
            def mob(n, g, view):
                return rows[round(x, 6), round([lam, 1/lam][view], 6), g][name[n]]
            def res(n, g, view):
                return M[name[n], g, i, [j, o][view]]
            try:
                pairs = []
                a = [1., lam]
                for n, p in (('XA', 1), ('XC', 3)):
                    m = np.array([[mob(n, int(v != w), v)/a[v]**p for w in (0, 1)] for v in (0, 1)])
                    r = np.array([[res(n, int(v != w), v)*a[v]**p for w in (0, 1)] for v in (0, 1)])
                    pairs += list(zip(np.ravel(m @ r), (1, 0, 0, 1)))
                # velocities and rotations across: units 6 pi, 4 pi, 8 pi
                def block(get, inv):
                    k = [6., 4., 8.] if not inv else [1/6, 1/4, 1/8]
                    q = -1 if inv else 1
                    A = [[get('YA', int(v != w), v)*a[v]**q*k[0] for w in (0, 1)] for v in (0, 1)]
                    C = [[get('YC', int(v != w), v)*a[v]**(3*q)*k[2] for w in (0, 1)] for v in (0, 1)]
                    # rotation (or torque) of v with the force (or velocity) of w
                    B = [[get('YB', int(v != w), v)*a[v]**(2*q)*k[1]*(1, -1)[v] for w in (0, 1)]
                         for v in (0, 1)]
                    return np.block([[np.array(A), np.array(B).T], [np.array(B), np.array(C)]])
                p = block(mob, True) @ block(res, False)
                # pi^2 cancels; rows of rotations are made comparable
                sc = np.array([1, 1, a[0], a[1]])
                p = p*sc[:, None]/sc
                pairs += list(zip(np.ravel(p), np.ravel(np.eye(4))))
            except KeyError:
                return [law(what, [], 0, ok=False)]
            out.append(law(what, [(vlib.qi(u, UNIT), vlib.qi(v, UNIT)) for u, v in pairs], 200))
    return out


# --- The check ---------------------------------------------------------------------

def run(chk):
    chk.model('MCTables', 'MCTables.cfg')
    chk.model('MCTables', 'MCTables_renew.cfg')
    rng = chk.rng(1)
    laws, st = stored_laws(chk)
    seps = sorted(set(st['sn']) | set(OTHER_SEPS))
    rats = sorted(set(st['rats']) | set(OTHER_RATS))
    all_chains = chains(chk)
    pick = rng.choice(len(all_chains), chk.pick(40, 300), replace=False)
    sessions = [fill(rng, all_chains[k]) for k in pick]
    mids = [{'kind': 'mid', 'seps': [float(x) for x in rng.choice([x for x in st['sm'] if x >= 2.9], 3, replace=False)],
             'rats': r} for r in ([1., .1], [.01, .1, 1.], [.1])]
    mids[0]['seps'] = mids[0]['seps'] + [2.5]
    tasks = [{'kind': 'functions', 'names': g, 'seps': seps, 'rats': rats} for g in GROUPS]
    tasks += mids + [{'kind': 'session', 'ops': o} for o in sessions]
    tasks += [{'kind': 'used', 'cwd': vlib.newdir('u')}]
    res = vlib.pmap(job, tasks, timeout=850)
    nf, nm = len(GROUPS), len(mids)
    events, where = [], []

    def add(ev, w):
        events.extend(ev)
        where.extend([w]*len(ev))
    add(laws, 'stored tables')
    # What the code reads
    u = res[-1]
    if isinstance(u, dict) and u.get('status') is None:
        for k, w in (('s_dash_range', st['s']), ('lam_range_with_reciprocals', st['rats']),
                     ('XYZ_raw', st['D']), ('XYZ_raw_no_d', st['T'])):
            if k in u:
                add([same('simulations read the tables made', u[k], w)], k)
    # Scripts on lists
    for o, r in zip(sessions, res[nf+nm:-1]):
        add(session_events(o, r), {'ops': [p['op'] for p in o], 'last': str(
            r[-1].get('text') if isinstance(r, list) else r)[-600:]})
    # Mid-field
    for t, r in zip(mids, res[nf:nf+nm]):
        if r == 'absent':
            continue
        lam = both(t['rats'])
        i = [int(np.argmin(np.abs(st['sm'] - x))) for x in t['seps']]
        j = [int(np.argmin(np.abs(st['rats'] - x))) for x in lam]
        w = {'mid-field script': t, 'result': str(r.get('text', r))[-600:]}
        if not r.get('ok') or r.get('table') is None:
            add([law('the mid-field script finishes', [], 0, ok=False)], w)
            continue
        add([same('the mid-field script gives the stored mid-field scalars', r['table'],
                  st['M'][:, :, i][:, :, :, j], tol=2000, floor=1e-3),
             printed_as('the mid-field script prints its table', r['rows'], r['table'], t['seps'], lam)], w)
        rows = {(round(x[0], 6), round(x[1], 6), int(x[2])): x[3:] for x in r['mobility'] or []}
        add(inverse('mobility and resistance scalars of the mid-field script', rows, r['table'],
                    t['seps'], np.array(lam)), w)
    # Near-field
    known = {}
    for r in res[:nf]:
        if isinstance(r, dict) and 'status' not in r:
            known.update(r)
        elif r != 'absent':
            raise vlib.Infra('near-field functions: %s' % str(r)[:600])
    whole = all(isinstance(r, dict) for r in res[:nf])
    lam = [x for x in st['rats'] if x <= 1]
    runs = [{'kind': 'near', 'seps': st['sn'].tolist(), 'rats': lam, 'known': known if whole else {}}]
    if whole:
        for r in ([.5, 1.], [1., .25, .5], [.5], [.1, .5]):
            runs.append({'kind': 'near', 'known': known, 'rats': r,
                         'seps': [float(x) for x in rng.permutation(seps)[:rng.randint(1, 6)]]})
    res = vlib.pmap(job, runs, timeout=850)
    for n, (t, r) in enumerate(zip(runs, res)):
        w = {'near-field script': {k: t[k] for k in ('seps', 'rats')},
             'result': str(r.get('text', r))[-600:]}
        if not r.get('ok'):
            add([law('the near-field script finishes', [], 0, ok=False)], w)
            continue
        lam = both(t['rats'])
        if n == 0:
            want = st['N']
        else:
            v = [[[known['%s%s%d%s %.9e %.9e' % (x[0], 1, g, x[1], s - 2, y)]
                   for g in (1, 2) for x in tablelab.NAMES] for y in lam] for s in t['seps']]
            want = tablelab.as_file(v)
            for k, x in enumerate(tablelab.NAMES):
                if x[1] in 'ACM':
                    for j, y in enumerate(lam):
                        o = lam.index(1/y)
                        add([law('reciprocity of near-field scalars', relative(
                            r['table'][k, 1, :, j], r['table'][k, 1, :, o]*y**tablelab.POWER[x[1]],
                            floor=1e-6), 100, kind='reciprocal')], w)
        add([same('the near-field script gives the near-field scalars', r['table'], want),
             printed_as('the near-field script prints its table', r['rows'], r['table'],
                        t['seps'], lam)], w)
    if chk.validate('SDTablesTrace', 'SDTablesTrace.cfg', events, len(events), describe=lambda i: {
            'where': where[i], 'event': {k: str(v)[:800] for k, v in events[i].items()}}):
        chk.count(script_sessions=len(sessions), near_field_values=len(known), laws=len(laws))
        chk.sample({'ops': [p['op'] for p in sessions[0]]})
