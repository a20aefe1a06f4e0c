"""Whole runs of the simulation script, with kills and restarts, recorded as
events of SDRun."""

import glob
import hashlib
import json
import os
import shutil

import numpy as np

import child
import vlib

POS_KEYS = ['centres', 'deltax', 'sphere_rotations']
FORCE_KEYS = ['Fa', 'Fb', 'DFb', 'Sa', 'force_on_wall_due_to_dumbbells']
ALL_KEYS = POS_KEYS + FORCE_KEYS


# --- Worlds --------------------------------------------------------------------
# Each world: particles, prescribed data as a function of the frame number, the
# input form and settings.

WORLD_POS = {
    'sphere_sizes': [1., 1.],
    'sphere_positions': [[0, 0, 0], [2.5, 0.6, -0.3]],
    'dumbbell_sizes': [0.1],
    'dumbbell_positions': [[0.3, 2.0, 1.0]],
    'dumbbell_deltax': [[1.0, 0.2, 0.3]]}


def world_values(world, f, boom=-1):
    """Prescribed data at frame (or stage) f."""
    g = 1 + 0.13*f
    E = [[[0.02, 0.01, 0.03], [0.01, -0.05, 0.0], [0.03, 0.0, 0.03]]]*2
    v = {'Ta': [[0.3, 0.1*g, -0.2], [0.1, 0.2, 0.5]],
         'Ea': E, 'O_inf': [0, 0.02, 0], 'U_inf': [0.1, 0, 0],
         'Fb': [[0.01, 0.02*g, -0.03]], 'DFb': [[0.02*g, 0.0, 0.05]]}
    if world == 'wall':
        v['Ua'] = [[0.2*g, 0.1, -0.3], None]
        v['Fa'] = [None, [-1.5, 0.4*g, 2.0]]
    elif world in ('drag', 'free'):
        v['Fa'] = [[1.0*g, 0.5, 0.2], [-1.5, 0.4*g, 2.0]]
    elif world == 'steady':
        v = {'Ta': [[0, 0, 0]]*2, 'Ea': [[[0]*3]*3]*2,
             'Fb': [[0.05, 0.02, -0.03]], 'DFb': [[0, 0, 0]],
             'Fa': [[1.0, 0.5, 0.2], [-1.5, 0.4, 2.0]]}
    if boom >= 0 and f == boom:
        v['DFb'] = [[60.0, 0.0, 5.0]]
    return v


WORLD_FORM = {'wall': 'ufte', 'drag': 'fte', 'steady': 'fte', 'free': 'fte'}
WORLD_SETTINGS = {
    'wall': {}, 'free': {},
    'drag': {'use_drag_Minfinity': True, 'use_Minfinity_only': True},
    'steady': {'use_drag_Minfinity': True, 'use_Minfinity_only': True}}


# --- Identifying rows -----------------------------------------------------------

def row_sets(data, keys, ref):
    """For every row of the arrays in keys, the set of frames of the reference
    run to which all of them correspond."""
    lens = [data[k].shape[0] if k in data and data[k].ndim > 0 else None
            for k in keys]
    if any(n is None for n in lens) or len(set(lens)) != 1:
        return None
    out = []
    for r in range(lens[0]):
        s = None
        for k in keys:
            a, b = data[k][r], ref[k]
            if a.shape != b.shape[1:]:
                return None
            d = np.abs(b - a[None]).reshape(b.shape[0], -1)
            ok = (d <= 1e-9*(1 + np.abs(b).reshape(b.shape[0], -1))).all(axis=1) \
                if d.shape[1] else np.ones(b.shape[0], bool)
            m = set(np.nonzero(ok)[0].tolist())
            s = m if s is None else s & m
        out.append(s)
    return out


def indices(sets):
    if sets is None:
        return [-9]
    return [min(s) if len(s) >= 1 else -1 for s in sets]


def describe_file(data, ref, forceknown=True):
    if data is None:
        return {'st': 'bad', 'pos': [], 'force': [], 'forceknown': forceknown}
    return {'st': 'ok', 'pos': indices(row_sets(data, POS_KEYS, ref)),
            'force': indices(row_sets(data, FORCE_KEYS, ref)),
            'forceknown': forceknown}


NOFILE = {'st': 'none', 'pos': [], 'force': [], 'forceknown': True}


def load(path):
    try:
        with np.load(path) as z:
            return {k: np.array(z[k]) for k in z.files}
    except Exception:
        return None


def is_own(path, foreign):
    return os.path.basename(path) not in foreign


def disk(cwd, ref, foreign=(), forceknown=True):
    """(backup, final) as found on disk."""
    temps = sorted(f for f in glob.glob(cwd + '/output/*_TEMP.npz')
                   if is_own(f, foreign))
    finals = sorted(f for f in glob.glob(cwd + '/output/*.npz')
                    if not f.endswith('_TEMP.npz'))
    if finals:
        # Damaged backups older than the output file: nothing needs them
        base = finals[-1][:-4] + '_TEMP.npz'
        temps = [t for t in temps if t >= base or load(t) is not None]
    t = describe_file(load(temps[-1]), ref, forceknown) if temps else NOFILE
    f = describe_file(load(finals[-1]), ref, forceknown) if finals else NOFILE
    return t, f


# --- Inside the child -----------------------------------------------------------

def make_law(world, boom, ref, logfile, kill, foreign, forceknown):
    """The user's input function for a lifecycle run: gives the prescribed
    data, notes which frames are computed from which configuration, and kills
    the process when told to."""
    state = {'last': None}
    if kill and kill['at'] == 'end':
        arm_end(kill)

    def law(n, posdata, frameno, timestep, last_velocities, form):
        if frameno == int(frameno) and ref is not None:
            here = {'centres': np.concatenate([posdata[1], posdata[4]])[None],
                    'deltax': np.array(posdata[5])[None],
                    'sphere_rotations': np.array(posdata[2])[None]}
            s = row_sets(here, POS_KEYS, ref)
            k = int(frameno)
            if s and k in s[0] and k != state['last']:
                state['last'] = k
                now = kill and kill['at'] == 'compute' and kill['k'] == k
                if now and kill.get('damage'):
                    # As if killed earlier, while writing the backup
                    truncate(sorted(
                        f for f in glob.glob('output/*_TEMP.npz')
                        if is_own(f, foreign))[-1:], kill.get('cut', 0.5))
                    os._exit(77)
                t, _ = disk('.', ref, foreign, forceknown)
                with open(logfile, 'a') as f:
                    f.write(json.dumps({'k': k, 'temp': t}) + '\n')
                if now:
                    os._exit(77)
        return world_values(world, frameno, boom)
    return law


def truncate(files, fraction):
    for f in files:
        n = os.path.getsize(f)
        with open(f, 'r+b') as h:
            h.truncate(int(n*fraction))


def arm_end(kill):
    """Kill the process when it is about to remove its backup."""
    def stop(path, *a, **k):
        p = os.fspath(path)
        if isinstance(p, str) and p.endswith('_TEMP.npz'):
            end_damage('.', kill, os.path.basename(p))
            if kill['what'] == 'removed':
                original(path, *a, **k)
            os._exit(78)
        return original(path, *a, **k)
    original = os.unlink
    os.remove = os.unlink = stop


def end_damage(cwd, kill, temp=None):
    """Bring the files on disk into the state they are in when the process is
    killed at the given point of its final phase."""
    finals = sorted(f for f in glob.glob(cwd + '/output/*.npz')
                    if not f.endswith('_TEMP.npz'))[-1:]
    what = kill['what']
    if what in ('before', 'damagedtemp'):
        # The output file had not been touched yet
        for f in finals:
            os.rename(f, cwd + '/discarded.npz')
        for f in glob.glob(cwd + '/before/*.npz'):
            shutil.copy(f, cwd + '/output')
    if what == 'damagedtemp' and temp:
        truncate([cwd + '/output/' + temp], kill.get('cut', 0.5))
    if what == 'damagedfinal':
        truncate(finals, kill.get('cut', 0.5))


# --- Scenarios ------------------------------------------------------------------

def task(world, cfg, cwd, ref=None, kill=None, logfile=None, foreign=(),
         forceknown=True, dt=0.25, setup=1001, inp=1001, extra=None):
    s = {'save_positions_every_n_timesteps': cfg['pos'],
         'save_forces_every_n_timesteps': cfg['force'],
         'start_saving_after_first_n_timesteps': cfg['start'],
         'save_to_temp_file_every_n_timesteps': cfg['backup'],
         'save_forces_and_positions_to_temp_file_as_well': cfg['backups'],
         'invert_m_every': cfg['inv'], 'timestepping_scheme': cfg['scheme'],
         'explosion_protection': cfg['protect']}
    s.update(WORLD_SETTINGS[world])
    s.update(extra or {})
    return {'cwd': cwd, 'pos': WORLD_POS,
            'argv': [setup, inp, dt, cfg['n'], WORLD_FORM[world],
                     'True' if world == 'wall' else 'False'],
            'settings': s, 'law': make_law,
            'law_args': {'world': world, 'boom': cfg['boom'], 'ref': ref,
                         'logfile': logfile, 'kill': kill, 'foreign': foreign,
                         'forceknown': forceknown}}


def cfg(n, pos=1, force=1, start=0, backup=1, backups=False, inv=1,
        scheme='euler', boom=-1, protect=False):
    return {'n': n, 'pos': pos, 'force': force, 'start': start,
            'backup': backup, 'backups': backups, 'inv': inv,
            'scheme': scheme, 'boom': boom, 'protect': protect}


def ref_key(world, c):
    return (world, c['scheme'], c['inv'] if world in ('wall', 'free') else 1,
            c['boom'])


def references(keys, n, dt=0.25):
    """Dense, uninterrupted, unprotected runs, one per key."""
    keys = sorted(set(keys))
    tasks = []
    for (world, scheme, inv, boom) in keys:
        c = cfg(n, scheme=scheme, inv=inv, boom=boom)
        tasks.append(task(world, c, vlib.newdir('ref'), dt=dt))
    res = vlib.runs(tasks)
    refs = {}
    for k, t, r in zip(keys, tasks, res):
        o = vlib.outputs(t['cwd'])['final']
        d = list(o.values())[0] if len(o) == 1 else None
        if r['status'] != 'ok' or d is None or d['centres'].shape[0] != n + 1 \
                or d['Fa'].shape[0] != n:
            raise vlib.Violation('a plain run of %d frames (%s, %s) does not '
                                 'produce its output: %s %s' % (
                                     n, k[0], k[1], r['status'],
                                     r.get('detail')), t['argv'])
        refs[k] = d
    return refs


def kill_of(point, c):
    """How to reach SDRun's crash point <<phase, frame>> in a real process."""
    phase, k = point
    last = c['n'] - 1
    if c['protect'] and c['boom'] >= 0:
        last = min(last, c['boom'])
    if phase in ('begin', 'computed', 'savedpos', 'savedforce') and k <= last:
        return {'at': 'compute', 'k': k}
    if phase == 'writing' and k < last:
        return {'at': 'compute', 'k': k + 1, 'damage': True}
    if phase == 'advance' and k < last:
        return {'at': 'compute', 'k': k + 1}
    return {'at': 'end', 'what': {
        'writing': 'damagedtemp', 'advance': 'before', 'begin': 'before',
        'finalwriting': 'damagedfinal', 'remove': 'after',
        'finish': 'removed'}[phase]}


def scenario(sc):
    """Play one scenario (in a child of its own): sessions of the simulation
    script, each killed as planned, until one completes. Returns events."""
    world, c, plan, ref = sc['world'], sc['cfg'], sc['plan'], sc['ref']
    known = sc.get('forceknown', True)
    cwd = sc['cwd']
    os.makedirs(cwd + '/output', exist_ok=True)
    foreign = plant(cwd, sc) if sc.get('foreign') else {}
    events = [dict(c, e='config')]
    kills = [kill_of(tuple(p), c) for p in plan] + [None]
    for j, kill in enumerate(kills):
        if kill:
            kill['cut'] = sc.get('cut', 0.5)
        log = cwd + '/log%d' % j
        t = task(world, c, cwd, ref, kill, log, tuple(foreign), known,
                 dt=sc.get('dt', 0.25), extra=sc.get('extra'))
        t['log'] = 'stdout%d.txt' % j
        shutil.rmtree(cwd + '/before', ignore_errors=True)
        os.mkdir(cwd + '/before')
        for f in glob.glob(cwd + '/output/*.npz'):
            if not f.endswith('_TEMP.npz'):
                shutil.copy(f, cwd + '/before')
        r = vlib.pmap(child.run_script, [t], nproc=1, timeout=200)[0]
        calls = []
        if os.path.exists(log):
            with open(log) as f:
                calls = [json.loads(x) for x in f]
        events.append({'e': 'start',
                       'from': calls[0]['k'] if calls else c['n']})
        for x in calls:
            events.append({'e': 'compute', 'k': x['k'], 'temp': x['temp']})
        if r['status'] == 'ok' and kill and kill['at'] == 'end':
            # Nothing was there to be removed; the process can still be
            # killed before or while it writes its output.
            end_damage(cwd, kill)
            r = {'status': 'killed'}
        tt, ff = disk(cwd, ref, tuple(foreign), known)
        if r['status'] == 'killed':
            events.append({'e': 'crash', 'temp': tt, 'final': ff})
            continue
        if r['status'] != 'ok':
            events.append({'e': 'failed:' + r['status'],
                           'detail': r.get('detail', '')[-800:]})
            break
        events.append({'e': 'done', 'temp': tt, 'final': ff,
                       'foreign': 'untouched' if foreign_state(cwd, foreign)
                       == foreign else 'changed'})
        break
    if not sc.get('keep'):
        shutil.rmtree(cwd, ignore_errors=True)
    return events


def plant(cwd, sc):
    """Backups of other runs: another set-up, input, number of frames or
    timestep."""
    names = {'setup': '2501010000-s1002-i1001-%dfr-t0p25-M1_TEMP.npz',
             'input': '2501010000-s1001-i1003-%dfr-t0p25-M1_TEMP.npz',
             'frames': '2501010000-s1001-i1001-%dfr-t0p25-M1_TEMP.npz',
             'timestep': '2501010000-s1001-i1001-%dfr-t0p5-M1_TEMP.npz',
             'small timestep': '2501010000-s1001-i1001-%dfr-t2p5e-05-M1_TEMP.npz',
             'newer setup': '9901010000-s101-i1001-%dfr-t0p25-M1_TEMP.npz'}
    n = sc['cfg']['n']
    for kind in sc['foreign']:
        fn = names[kind] % (n*10 if kind == 'frames' else n)
        r = sc['ref']
        np.savez_compressed(cwd + '/output/' + fn,
                            **{k: r[k][1:3] for k in ALL_KEYS})
    return foreign_state(cwd, None)


def foreign_state(cwd, only):
    s = {}
    for f in glob.glob(cwd + '/output/*_TEMP.npz'):
        b = os.path.basename(f)
        if only is None or b in only:
            with open(f, 'rb') as h:
                s[b] = hashlib.sha1(h.read()).hexdigest()
    return s


def play(scenarios, refs, timeout=400):
    vlib.warm()
    for s in scenarios:
        s['ref'] = refs[ref_key(s['world'], s['cfg'])]
        s['cwd'] = vlib.newdir('sc')
    res = vlib.pmap(scenario, scenarios, timeout=timeout)
    out = []
    for s, r in zip(scenarios, res):
        if isinstance(r, dict):
            r = [dict(s['cfg'], e='config'),
                 {'e': 'failed:' + str(r.get('status')),
                  'detail': str(r.get('detail', ''))[-800:]}]
        out.append(r)
    return out


def validate(chk, scenarios, traces):
    """Check all recorded scenarios with TLC; when one is rejected, set it
    aside and carry on with the rest, so that the report is complete."""
    todo = list(range(len(traces)))
    for attempt in range(6):
        events, owner = [], []
        for i in todo:
            for e in traces[i]:
                events.append(e)
                owner.append(i)
        if not events:
            break
        nv = len(chk.violations)

        def describe(j):
            i = owner[j] if 0 <= j < len(owner) else None
            if i is None:
                return None
            s = scenarios[i]
            return {'world': s['world'], 'cfg': s['cfg'], 'plan': s['plan'],
                    'foreign': s.get('foreign'), 'trace': traces[i]}
        if chk.validate('SDRunTrace', 'SDRunTrace.cfg', events, len(todo),
                        describe=describe):
            break
        ctx = chk.violations[-1][1].get('context') if isinstance(
            chk.violations[-1][1], dict) else None
        if not ctx:
            break
        bad = next(i for i in todo if traces[i] == ctx['trace'])
        print('rejected scenario:', json.dumps(
            {k: ctx[k] for k in ('world', 'cfg', 'plan', 'foreign')}))
        todo.remove(bad)
