"""Code which runs inside a forked child: boots the repository's modules with
chosen settings, injects particle set-ups and prescribed data through the two
places where users write theirs (the position set-up function and the input
function), and runs either single solves or the whole simulation script.

Nothing here looks inside the simulation: the only names used are settings,
the set-up function, the input function, the solve entry point which the
existing test uses, and the script itself."""

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import io
import os
import runpy
import signal
import sys
import traceback

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
SD = os.path.join(REPO, 'stokesian_dynamics')

CUSTOM = 1000      # input and set-up numbers from here on are the harness's
STATE = {'input': None, 'posdata': None, 'calls': []}


# --- Booting -----------------------------------------------------------------

def boot(argv=(), settings=None):
    """Import the repository's settings with argv, apply overrides, and put
    the harness's input function in front of the user's."""
    sys.argv = ['run_simulation.py'] + [str(a) for a in argv]
    if SD not in sys.path:
        sys.path.insert(0, SD)
    import settings as st
    for k, v in (settings or {}).items():
        setattr(st, k, v)
    if 'view_graphics' not in (settings or {}):
        st.view_graphics = False
    import setups.inputs as si
    original = si.input_ftsuoe

    def input_ftsuoe(n, posdata, frameno, timestep, last_velocities,
                     *args, **kwargs):
        if n < CUSTOM:
            STATE['calls'].append((n, frameno))
            hook = STATE.get('call_hook')
            if hook:
                hook(frameno, posdata)
            return original(n, posdata, frameno, timestep, last_velocities,
                            *args, **kwargs)
        names = ['input_form', 'skip_computation',
                 'grand_resistance_matrix_fte']
        kw = dict(zip(names, args))
        kw.update(kwargs)
        if STATE.get('packed') is not None:
            return STATE['packed']
        STATE['skip'] = (kw.get('skip_computation', False)
                         or kw.get('grand_resistance_matrix_fte') is not None)
        vals = STATE['input'](n, posdata, frameno, timestep, last_velocities,
                              kw.get('input_form', 'undefined'))
        return pack_input(si, posdata, vals)

    si.input_ftsuoe = input_ftsuoe
    return st


def empties(si, posdata):
    f = getattr(si, 'empty_vectors', None)
    if f is None:
        import functions.simulation_tools as t
        f = t.empty_vectors
    return [list(x) for x in f(posdata)]


FIELDS = ['Fa', 'Ta', 'Sa', 'Sa_c', 'Fb', 'DFb', 'Ua', 'Oa', 'Ea', 'Ea_c',
          'Ub', 'HalfDUb']


def pack_input(si, posdata, vals):
    """A user's input function returns 21 things; values not given stay
    unspecified, exactly as the supplied input functions leave them."""
    e = empties(si, posdata)
    for i, name in enumerate(FIELDS):
        v = vals.get(name)
        if v is None:
            continue
        for j, row in enumerate(v):
            if row is not None:
                if j == len(e[i]):
                    e[i].append(None)      # strain rate without any spheres
                e[i][j] = np.array(row, dtype=float).tolist()
    z3 = np.array([0, 0, 0])
    tail = [vals.get('desc', ''),
            np.array(vals.get('U_inf', z3), dtype=float),
            np.array(vals.get('O_inf', z3), dtype=float),
            np.array(vals.get('centre', z3), dtype=float),
            np.array(vals.get('Ot', z3), dtype=float),
            np.array(vals.get('Et', np.zeros([3, 3])), dtype=float),
            np.array(vals.get('bl', z3), dtype=float),
            np.array(vals.get('tr', z3), dtype=float),
            vals.get('mu', 1)]
    return tuple(e + tail)


def make_posdata(p):
    """p: dict with sphere_sizes, sphere_positions, [sphere_rotations],
    dumbbell_sizes, dumbbell_positions, dumbbell_deltax."""
    ss = np.array(p.get('sphere_sizes', []), dtype=float)
    sp = np.array(p.get('sphere_positions', []), dtype=float).reshape(-1, 3)
    if 'sphere_rotations' in p:
        sr = np.array(p['sphere_rotations'], dtype=float).reshape(-1, 2, 3)
    else:
        sr = np.array([[x + a*np.array([1, 0, 0]), x + a*np.array([0, 0, 1])]
                       for a, x in zip(ss, sp)], dtype=float).reshape(-1, 2, 3)
    ds = np.array(p.get('dumbbell_sizes', []), dtype=float)
    dp = np.array(p.get('dumbbell_positions', []), dtype=float).reshape(-1, 3)
    dd = np.array(p.get('dumbbell_deltax', []), dtype=float).reshape(-1, 3)
    return (ss, sp, sr, ds, dp, dd)


# --- Single solves -------------------------------------------------------------

OUT = ['Fa', 'Ta', 'Sa', 'Fb', 'DFb', 'Ua', 'Oa', 'Ea', 'Ub', 'HalfDUb',
       'Minf_inv', 'gen_times', 'U_inf', 'O_inf', 'centre', 'Ot', 'Et',
       'wall_force', 'last_velocity_vector']


def solver():
    if 'solve' not in STATE:
        from functions.timestepping import generate_output_FTSUOE
        STATE['solve'] = generate_output_FTSUOE
    return STATE['solve']


def solve(prob, keep_matrix=False):
    """One solve. prob: pos, vals, form and options."""
    f = solver()
    posdata = prob['posdata'] if 'posdata' in prob else make_posdata(prob['pos'])
    vals = prob['vals']
    STATE['input'] = lambda *a: vals
    ns, nd = len(posdata[0]), len(posdata[3])
    lastv = prob.get('last_velocities')
    if lastv is None:
        lastv = [np.zeros([ns, 3]), np.zeros([nd, 3]), np.zeros([nd, 3]),
                 np.zeros([ns, 3])]
    try:
        out = f(posdata, prob.get('frameno', 0), prob.get('timestep', 0.1),
                CUSTOM + 1, prob.get('Minf_inv', np.array([0])),
                prob.get('regenerate', True), prob.get('form', 'fte'),
                prob.get('cutoff', 2), prob.get('printout', 0),
                prob.get('drag', False), prob.get('minf_only', False),
                prob.get('extract', False), lastv,
                np.zeros(11*ns + 6*nd))
    except SystemExit as e:
        return {'error': 'exit %r' % (e.code,)}
    except Exception as e:
        return {'error': '%s: %s' % (type(e).__name__, e),
                'tb': traceback.format_exc()}
    r = {}
    shapes = {'Fa': (ns, 3), 'Ta': (ns, 3), 'Ua': (ns, 3), 'Oa': (ns, 3),
              'Sa': (ns, 3, 3), 'Ea': (ns, 3, 3), 'Fb': (nd, 3),
              'DFb': (nd, 3), 'Ub': (nd, 3), 'HalfDUb': (nd, 3)}
    for k, v in zip(OUT, out):
        if k in shapes:
            try:
                r[k] = np.array(v, dtype=float).reshape(shapes[k])
            except Exception:
                r[k] = np.full(shapes[k], np.nan)
        elif k == 'wall_force':
            r[k] = np.array(v, dtype=float)
        elif k == 'Minf_inv' and keep_matrix:
            r[k] = v
    return r


def quiet():
    """Send this process's output to nowhere."""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    sys.stdout = io.TextIOWrapper(os.fdopen(os.dup(1), 'wb'), write_through=True)


def solve_chunk(task):
    """task: {'settings', 'problems', 'cwd'} -> list of results."""
    os.chdir(task['cwd'])
    quiet()
    boot([], task.get('settings'))
    return [solve(p) for p in task['problems']]


def strain_basis():
    """Five orthonormal symmetric traceless tensors."""
    r2, r6 = np.sqrt(.5), np.sqrt(1/6)
    b = np.zeros([5, 3, 3])
    b[0] = np.diag([r2, -r2, 0])
    b[1] = np.diag([r6, r6, -2*r6])
    for k, (i, j) in enumerate([(0, 1), (0, 2), (1, 2)]):
        b[2+k][i, j] = b[2+k][j, i] = r2
    return b


BASIS = strain_basis()


def load_vals(f, ns, nd):
    """Loads from a vector: per sphere force, torque, stresslet components,
    per dumbbell total force and difference."""
    s = np.reshape(f[:11*ns], (ns, 11))
    d = np.reshape(f[11*ns:], (nd, 6))
    return {'Fa': s[:, :3], 'Ta': s[:, 3:6],
            'Sa': np.einsum('ik,kab->iab', s[:, 6:], BASIS),
            'Fb': d[:, :3], 'DFb': d[:, 3:]}


def motion(r):
    """The work-conjugate vector of an answer."""
    parts = []
    for i in range(len(r['Ua'])):
        parts += [r['Ua'][i], r['Oa'][i],
                  np.einsum('ab,kab->k', r['Ea'][i], BASIS)]
    for i in range(len(r['Ub'])):
        parts += [r['Ub'][i], r['HalfDUb'][i]]
    return np.concatenate(parts)


def mobility(prob):
    """The whole mobility matrix, column by column, from solves with unit
    loads (the far field is generated once)."""
    posdata = make_posdata(prob['pos'])
    ns, nd = len(posdata[0]), len(posdata[3])
    n = 11*ns + 6*nd
    cols = []
    far = None
    for j in range(n):
        f = np.zeros(n)
        f[j] = 1
        kw = dict(prob, posdata=posdata, form='fts',
                  vals=dict(prob['vals'], **load_vals(f, ns, nd)))
        if far is not None:
            kw['Minf_inv'], kw['regenerate'] = far, False
        r = solve(kw, keep_matrix=True)
        if 'error' in r:
            return r
        far = r['Minf_inv']
        cols.append(motion(r))
    return {'mobility': np.array(cols).T}


def resistance(prob):
    """Loads which hold the motions prob['motions'], and the motions that the
    solver then gives."""
    m = mobility(prob)
    if 'error' in m:
        return m
    posdata = make_posdata(prob['pos'])
    ns, nd = len(posdata[0]), len(posdata[3])
    out, far = [], None
    for v in prob['motions']:
        f = np.linalg.solve(m['mobility'], np.array(v, dtype=float))
        kw = dict(prob, posdata=posdata, form='fts',
                  vals=dict(prob['vals'], **load_vals(f, ns, nd)))
        if far is not None:
            kw['Minf_inv'], kw['regenerate'] = far, False
        r = solve(kw, keep_matrix=True)
        if 'error' in r:
            return r
        far = r['Minf_inv']
        out.append((f, motion(r)))
    return {'held': out}


def resistance_chunk(task):
    os.chdir(task['cwd'])
    quiet()
    boot([], task.get('settings'))
    return [resistance(p) for p in task['problems']]


def mobility_chunk(task):
    os.chdir(task['cwd'])
    quiet()
    boot([], task.get('settings'))
    return [mobility(p) for p in task['problems']]


def resolve(task):
    """Answers for the evaluations of a run, with the far fields of others.
    task: evals (posdata, vals), form and options, wanted: for every
    evaluation the evaluations whose far field is to be used."""
    os.chdir(task['cwd'])
    quiet()
    boot([], task.get('settings'))
    out, far = [], {}
    for i, e in enumerate(task['evals']):
        row = {}
        for s in [i] + [x for x in task['wanted'][i] if x != i]:
            kw = dict(task['opts'], posdata=e['posdata'], vals=e['vals'],
                      form=task['form'], frameno=e['frameno'],
                      timestep=task['dt'])
            if s != i:
                kw['Minf_inv'], kw['regenerate'] = far[s], False
            r = solve(kw, keep_matrix=True)
            if s == i and 'Minf_inv' in r:
                far[i] = r['Minf_inv']
            r.pop('Minf_inv', None)
            row[s] = r
            if 'error' in r:
                break
        out.append(row)
    return out


def frozen(x):
    """Everything in a nest of tuples, lists and arrays, for comparison."""
    if isinstance(x, np.ndarray):
        return ('a', x.dtype.str, x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(frozen(y) for y in x)
    return x


def session(task):
    """Solves in one process, one after another. task: problems, and steps
    {'prob': index, 'mode': ..., 'level': printout}. Modes: plain; later
    (another frame number and timestep); reuse (with the far field returned
    by the latest solve of that problem)."""
    os.chdir(task['cwd'])
    quiet()
    boot([], task.get('settings'))
    import setups.inputs as si
    f = solver()
    probs = []
    for p in task['problems']:
        posdata = make_posdata(p['pos'])
        probs.append({'posdata': posdata, 'prob': p, 'far': None,
                      'packed': pack_input(si, posdata, p['vals'])})
    out = []
    try:
        for st in task['steps']:
            P = probs[st['prob']]
            p = P['prob']
            STATE['packed'] = P['packed']
            ns, nd = len(P['posdata'][0]), len(P['posdata'][3])
            lastv = [np.zeros([ns, 3]), np.zeros([nd, 3]), np.zeros([nd, 3]),
                     np.zeros([ns, 3])]
            reuse = st['mode'] == 'reuse' and P['far'] is not None
            far = P['far'] if reuse else np.array([0])
            args = [P['posdata'], P['packed'], lastv, far]
            before = frozen(args)
            kw = dict(p, posdata=P['posdata'], last_velocities=lastv,
                      Minf_inv=far, regenerate=not reuse,
                      printout=st.get('level', 0))
            if st['mode'] == 'later':
                kw['frameno'], kw['timestep'] = 7, 0.3
            r = solve(kw, keep_matrix=True)
            r['kept'] = frozen(args) == before
            if 'Minf_inv' in r:
                P['far'] = r.pop('Minf_inv')
            out.append(r)
    finally:
        STATE['packed'] = None
    return out


# --- Whole runs ----------------------------------------------------------------

class _Loader(importlib.abc.SourceLoader):
    """Loads the position set-ups, with the harness's set-up numbers added in
    front of the user's, as if the user had added them to the list."""

    def __init__(self, path):
        self.path = path

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        for i, node in enumerate(tree.body):
            bound = []
            if isinstance(node, ast.FunctionDef):
                bound = [node.name]
            elif isinstance(node, (ast.ImportFrom, ast.Import)):
                bound = [a.asname or a.name for a in node.names]
            elif isinstance(node, ast.Assign):
                bound = [t.id for t in node.targets if isinstance(t, ast.Name)]
            if 'pos_setup' in bound:
                new = ast.parse(
                    'import verif_child as __vc\n'
                    'pos_setup = __vc.wrap_pos_setup(pos_setup)\n').body
                tree.body[i+1:i+1] = new
                break
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def path_stats(self, path):
        raise OSError

    def set_data(self, *a, **k):
        pass


class _Settings(_Loader):
    """Loads the settings as if the user had edited some of their values (the
    ones which the command line may override)."""

    def source_to_code(self, data, path, *, _optimize=-1):
        tree = ast.parse(data, path)
        left = dict(STATE['defaults'])
        for node in tree.body:
            if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(
                    node.targets[0], ast.Name) and node.targets[0].id in left:
                node.value = ast.Constant(left.pop(node.targets[0].id))
        STATE['not_set'] = sorted(left)
        ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname == 'settings' and STATE.get('defaults'):
            p = os.path.join(SD, 'settings.py')
            if os.path.exists(p):
                return importlib.util.spec_from_file_location(
                    fullname, p, loader=_Settings(p))
        if fullname == 'setups.positions':
            p = os.path.join(SD, 'setups', 'positions.py')
            if os.path.exists(p):
                return importlib.util.spec_from_file_location(
                    fullname, p, loader=_Loader(p))
        return None


def wrap_pos_setup(original):
    def pos_setup(n, *args, **kwargs):
        STATE['setups'] = STATE.get('setups', []) + [n]
        if n < CUSTOM:
            return original(n, *args, **kwargs)
        p = STATE['posdata']
        if 'same_as' in p:
            # As a user's set-up made from the frame of an earlier run
            got = original.__globals__['same_setup_as'](*p['same_as'][:1],
                                                        **p['same_as'][1])
            STATE['read_back'] = [np.array(x).tolist() for x in got]
            return got, STATE.get('setup_desc', '')
        return make_posdata(p), STATE.get('setup_desc', '')
    return pos_setup


def run_script(task):
    """Run run_simulation.py as a script in task['cwd'].

    task: argv, settings, pos, law (callable) and law_args, seed, stdin.
    Returns status, calls (frame numbers and positions seen by the input
    function), and printed text."""
    os.chdir(task['cwd'])
    os.makedirs('output', exist_ok=True)
    log = os.path.join(task['cwd'], task.get('log', 'stdout.txt'))
    fd = os.open(log, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    sys.stdout = io.TextIOWrapper(os.fdopen(os.dup(1), 'wb'), write_through=True)
    sys.stderr = sys.stdout
    sys.stdin = io.StringIO(task.get('stdin', '\n'))
    np.random.seed(task.get('seed', 1))
    status = 'ok'
    detail = ''
    sys.modules['verif_child'] = sys.modules[__name__]
    try:
        if task.get('pos') is not None:
            STATE['posdata'] = task['pos']
            STATE['defaults'] = task.get('defaults')
            STATE['setup_desc'] = task.get('setup_desc', '')
            sys.meta_path.insert(0, _Finder())
        law = task.get('law')
        if law is not None:
            STATE['input'] = law(**task.get('law_args', {}))
        if task.get('call_hook') is not None:
            STATE['call_hook'] = task['call_hook'](**task.get('call_hook_args', {}))
        boot(task['argv'], task.get('settings'))
        runpy.run_path(os.path.join(SD, 'run_simulation.py'),
                       run_name='__main__')
    except SystemExit as e:
        status, detail = 'exit', repr(e.code)
    except BaseException as e:
        status, detail = 'exception', '%s: %s' % (type(e).__name__, e)
        traceback.print_exc()
    sys.stdout.flush()
    return {'status': status, 'detail': detail, 'calls': STATE['calls'],
            'evals': STATE.get('evals', []), 'setups': STATE.get('setups', []),
            'not_set': STATE.get('not_set', []),
            'read_back': STATE.get('read_back')}
