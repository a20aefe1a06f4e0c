"""C29: pictures show the particles as they are.

The plotting scripts and the simulation script (with graphics on) are run with
matplotlib as it is, except that nothing is shown or encoded: whenever a frame
would be, what is on the canvas is noted. SDPictureTrace validates it."""
import os
import re
import sys
import time

import numpy as np

import child
import runlab
import vlib

UNIT = .001


def qt(x):
    return [int(v) for v in np.rint(np.asarray(x, dtype=float)/UNIT)]


# --- In the child ---------------------------------------------------------------

def canvas(fig):
    """What is on the canvas."""
    from matplotlib.patches import FancyArrowPatch
    ax = fig.axes[0]
    discs, lines, arrows = [], [], []
    for p in ax.patches:
        if isinstance(p, FancyArrowPatch):
            continue
        v = np.array(p._segment3d, dtype=float)
        c = .5*(v.max(axis=0) + v.min(axis=0))
        discs.append({'c': qt(c), 'r': qt([np.linalg.norm(v - c, axis=1).min()])[0],
                      'colour': qt(p.get_facecolor()[:3])})
    for s in ax.lines:
        v = np.array(s.get_data_3d(), dtype=float).T
        lines.append({'a': qt(v[0]), 'b': qt(v[-1])})
    for a in ax.get_children():
        if isinstance(a, FancyArrowPatch):
            v = np.array(a._verts3d, dtype=float).T
            arrows.append({'a': qt(v[0]), 'b': qt(v[-1])})
    return {'discs': discs, 'lines': lines, 'arrows': arrows,
            'title': ax.get_title(loc='left')}


def matplotlib_noting(seen, files):
    """Make matplotlib note what it would show or encode."""
    import matplotlib
    matplotlib.use('Agg')
    from matplotlib import animation
    import matplotlib.pyplot as plt

    class Noting(animation.AbstractMovieWriter):
        def __init__(self, *a, **k):
            super().__init__()

        def setup(self, fig, outfile, dpi=None):
            super().setup(fig, outfile, dpi)

        def grab_frame(self, **k):
            seen.append(canvas(self.fig))

        def finish(self):
            files.append(str(self.outfile))
    animation.FFMpegWriter = Noting
    import warnings
    warnings.simplefilter("ignore")
    made = []
    real = animation.FuncAnimation

    class Animation(real):
        def __init__(self, *a, **k):
            super().__init__(*a, **k)
            made.append(self)
    animation.FuncAnimation = Animation

    def show(*a, **k):
        if made:
            made.pop().save('shown', writer=Noting(), dpi=10)
        elif not seen:
            seen.append(canvas(plt.gcf()))
    plt.show = show
    # Nothing need be painted
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    FigureCanvasAgg.draw = lambda self, *a, **k: None


def script(t):
    """One of the plotting scripts, as if it lay in the scratch folder."""
    seen, files = [], []
    matplotlib_noting(seen, files)
    path = child.SD + '/plotting/' + t['script']
    with open(path) as f:
        text = f.read()
    for name, value in t['constants'].items():
        text, k = re.subn(r'(?m)^%s = .*$' % name, '%s = %r' % (name, value), text, count=1)
        if k == 0:
            return {'skipped': name}
    child.STATE['posdata'] = {'sphere_sizes': [1.], 'sphere_positions': [[0., 0, 0]]}
    box = t['box']

    def law(n, posdata, frameno, timestep, last_velocities, form):
        if box is None:
            return {}
        g = box['rate']*timestep*frameno
        return {'bl': box['low'], 'tr': np.add(box['low'], box['side']),
                'O_inf': [0, .5*box['rate'], 0],
                'Ot': [0, .5*g, 0], 'Et': [[0, 0, .5*g], [0, 0, 0], [.5*g, 0, 0]]}
    child.STATE['input'] = law
    sys.meta_path.insert(0, child._Finder())
    sys.modules['verif_child'] = child
    os.chdir(t['cwd'])
    child.quiet()
    child.boot([], {})
    here = t['cwd'] + '/plotting/' + t['script']
    import types
    main = types.ModuleType('__main__')
    main.__file__ = here
    try:
        exec(compile(text, path, 'exec'), main.__dict__)
    except SystemExit as e:
        return {'error': 'exit %r' % (e.code,)}
    except Exception as e:
        import traceback
        return {'error': '%s: %s' % (type(e).__name__, e), 'tb': traceback.format_exc()[-1500:]}
    return {'seen': seen, 'files': files}


def make_law(forces, ns, nd):
    def law(n, posdata, frameno, timestep, last_velocities, form):
        k = min(int(frameno), len(forces) - 1)
        f = forces[k]
        return {'Fa': f[:ns], 'Ta': [[0, .3, .1]]*ns, 'Ea': [[[0]*3]*3]*max(1, ns),
                'Fb': f[ns:], 'DFb': (.1*np.array(f[ns:])).tolist()}
    return law


def shown_run(t):
    seen, files = [], []
    matplotlib_noting(seen, files)
    r = child.run_script(t)
    r['seen'] = seen
    return r


# --- Worlds -----------------------------------------------------------------------

def frames(rng, n, ns, nd, room):
    """Frames of particles that do not coincide."""
    out = []
    for _ in range(n):
        while True:
            x = rng.uniform(-room, room, (ns + nd, 3))
            gap = [np.abs(a - b).max() for i, a in enumerate(x) for b in x[:i]]
            if not gap or min(gap) > .8:
                break
        dd = rng.uniform(-.6, .6, (nd, 3)) + np.array([.2, 0, .3])
        u = rng.normal(size=(ns, 2, 3))
        u /= np.linalg.norm(u, axis=2)[:, :, None]
        out.append({'x': x[:ns], 'mark': x[:ns, None] + u, 'dx': x[ns:], 'dd': dd})
    return out


def spec_frame(f, r, dr, fresh=False):
    mark = f['mark']
    if fresh:
        mark = [[x + [1, 0, 0], x + [0, 0, 1]] for x in f['x']]
    return {'x': [qt(x) for x in f['x']], 'mark': [[qt(m) for m in ms] for ms in mark],
            'r': [qt([v])[0] for v in r], 'dx': [qt(x) for x in f['dx']],
            'dd': [qt(x) for x in f['dd']], 'dr': [qt([v])[0] for v in dr]}


def stack(fs, key, shape):
    return np.array([f[key] for f in fs]).reshape((len(fs),) + shape)


def save(path, fs, forces, ns, nd):
    n = len(fs)
    np.savez(path, centres=np.concatenate([stack(fs, 'x', (ns, 3)), stack(fs, 'dx', (nd, 3))], 1),
             deltax=stack(fs, 'dd', (nd, 3)), sphere_rotations=stack(fs, 'mark', (ns, 2, 3)),
             Fa=np.array(forces)[:, :ns], Fb=np.array(forces)[:, ns:],
             DFb=.1*np.array(forces)[:, ns:], Sa=np.zeros((len(forces), ns, 3, 3)),
             force_on_wall_due_to_dumbbells=np.zeros(n))


NOBOX = {'side': [0, 0, 0], 'low': [0, 0, 0], 'moved': 0, 'mean': 0}
SIDES = [[8, 8, 8], [4, 8, 16], [16, 8, 4], [16, 4, 8]]


def title(text):
    m = re.search(r'frame +(\d+)/(\d+)', text)
    return (int(m[1]), int(m[2])) if m else (-1, -1)


def sessions(chk):
    rng = chk.rng(1)
    out = []
    for k in range(chk.pick(150, 900)):
        kind = ['plot', 'video', 'run'][k % 3]
        ns, nd = [(2, 1), (1, 0), (0, 2), (3, 2), (2, 0)][rng.randint(5)]
        n = int(rng.randint(2, 6))
        fs = frames(rng, n, ns, nd, 3)
        short = int(rng.randint(2))          # one row of forces fewer, as runs save them
        forces = rng.uniform(-.7, .7, (n - short, ns + nd, 3))
        s = {'kind': kind, 'ns': ns, 'nd': nd, 'n': n, 'fs': fs, 'forces': forces,
             'cwd': vlib.newdir('pic'), 'box': None, 'every': 1, 'first': 0, 'constants': {}}
        if kind == 'plot':
            row = int(rng.randint(n))
            s['row'] = n - 1 if rng.randint(3) == 0 else row
            if s['row']:
                s['constants']['frameno'] = s['row']
        if kind == 'video':
            if rng.randint(2):
                side = SIDES[rng.randint(len(SIDES))]
                s['box'] = {'side': side, 'low': [-.5*x for x in side],
                            'rate': float(rng.choice([.5, -.25, 1.75]))}
                if rng.randint(3) == 0:
                    s['box']['low'] = [0, 0, 0]
            if rng.randint(3) == 0:
                s['every'] = 2
                s['constants']['display_every_n_frames'] = 2
            if rng.randint(4) == 0 and n > 2:
                s['first'] = 1
                s['constants'].update(num_frames_override_start=1, num_frames_override_end=n)
        if kind == 'run':
            s['labels'] = bool(rng.randint(2))
            s['trace'] = int(rng.randint(2))
            s['scheme'] = ['euler', 'ab2', 'rk4'][rng.randint(3)]
            s['sizes'] = [[1., .5, 1., 2.][rng.randint(4)]]*ns
            # In a row, so that none overlap; some of them in the plane
            x = np.zeros((ns + nd, 3))
            x[:, 0] = 6*np.arange(ns + nd)
            x[:, 1] = rng.choice([0., -.5, 2., -3.], ns + nd)
            x[:, 2] = rng.uniform(-1, 1, ns + nd)
            s['x'] = x
            s['dd'] = np.array([[.5, .2, 1.]]*nd).reshape(nd, 3)
            f = rng.uniform(-.7, .7, (n, ns + nd, 3))
            f[:, :, 1] = 0
            f[rng.uniform(size=f.shape[:2]) < .2] = 0
            s['forces'] = f
        out.append(s)
    return out


def task(s):
    os.makedirs(s['cwd'] + '/output', exist_ok=True)
    os.makedirs(s['cwd'] + '/plotting', exist_ok=True)
    if s['kind'] == 'run':
        c = runlab.cfg(s['n'], scheme=s['scheme'])
        t = runlab.task('steady', c, s['cwd'], extra={
            'view_graphics': True, 'view_labels': s['labels'], 'trace_paths': s['trace']})
        return dict(t, pos={'sphere_sizes': s['sizes'], 'sphere_positions': s['x'][:s['ns']].tolist(),
                            'dumbbell_sizes': [s['sizes'][0] if s['ns'] else .1]*s['nd'],
                            'dumbbell_positions': s['x'][s['ns']:].tolist(),
                            'dumbbell_deltax': s['dd'].tolist()},
                    law=make_law, law_args={'forces': s['forces'].tolist(), 'ns': s['ns'],
                                            'nd': s['nd']},
                    argv=[1001, 1001, 1, s['n'], 'fte' if s['ns'] else 'fts'])
    name = '2603041200-s1001-i1001-%dfr-t0p5-M1' % s['n']
    if s['kind'] == 'plot':
        name = 'filename_here'
    else:
        save(s['cwd'] + '/output/2603041159-s1001-i1001-9fr-t0p5-M1.npz',
             s['fs'][::-1], s['forces'], s['ns'], s['nd'])
        time.sleep(.02)
    save(s['cwd'] + '/output/' + name + '.npz', s['fs'], s['forces'], s['ns'], s['nd'])
    s['name'] = name
    return {'script': 'plot_positions.py' if s['kind'] == 'plot' else 'make_video.py',
            'constants': s['constants'], 'box': s['box'], 'cwd': s['cwd']}


def box_of(s, row):
    b = s['box']
    if b is None:
        return NOBOX
    return {'side': qt(b['side']), 'low': qt(b['low']),
            'moved': qt([b['rate']*.5*row*b['side'][2]])[0],
            'mean': qt([round(float(np.prod(b['side']))**(1/3), 6)])[0]}


def events_of(chk, s, r):
    about = {k: s[k] for k in ('kind', 'ns', 'nd', 'n', 'constants', 'box')}
    if s['kind'] == 'run':
        about.update({k: s[k] for k in ('labels', 'trace', 'scheme')})
        if r['status'] != 'ok':
            raise vlib.Violation('a shown run fails: %s %s' % (r['status'], r['detail']), about)
    elif 'error' in r:
        raise vlib.Violation('no picture: ' + r['error'], dict(about, tb=r.get('tb')))
    seen = r['seen']
    if s['kind'] == 'run':
        o = list(vlib.outputs(s['cwd'])['final'].values())[0]
        ns = s['ns']
        rows = [{'x': o['centres'][k][:ns], 'mark': o['sphere_rotations'][k],
                 'dx': o['centres'][k][ns:], 'dd': o['deltax'][k]} for k in range(s['n'] + 1)]
        s['forces'] = o['Fa']
        fr = [spec_frame(f, s['sizes'], [s['sizes'][0] if ns else .1]*s['nd']) for f in rows]
        want = [(k + 1, k + 2, k + 1) for k in range(s['n'])]      # title, row, force
        of = s['n']
    else:
        fr = [spec_frame(f, [1]*s['ns'], [.1]*s['nd'], s['kind'] == 'plot') for f in s['fs']]
        if s['kind'] == 'plot':
            want = [(s['row'], s['row'] + 1, s['row'] + 1)]
            of = s['n'] - 1
        else:
            shown = (s['n'] - s['first'])//s['every']
            rows = [k*s['every'] + s['first'] for k in range(shown)]
            want = [(k, q + 1, q + 1) for k, q in enumerate(rows)]
            of = shown - 1
    es = [{'kind': 'start', 'frames': fr, 'of': of, 'rods': s['kind'] == 'video',
           'paths': bool(s['kind'] == 'run' and s['trace']),
           'arrows': bool(s['kind'] == 'run' and s['labels']),
           'forces': [[qt(v) for v in f[:s['ns']]] for f in s['forces']]}]
    if len(seen) != len(want):
        raise vlib.Violation('%d pictures instead of %d' % (len(seen), len(want)), about)
    if s['kind'] == 'video':
        es.append({'kind': 'file', 'used': [os.path.basename(f) for f in r['files']],
                   'newest': [s['name'] + '.mp4']})
    for (number, row, force), c in zip(want, seen):
        a, b = title(c['title'])
        es.append({'kind': 'picture', 'wanted': number, 'number': a, 'of': b, 'row': row,
                   'force': force, 'discs': c['discs'], 'lines': c['lines'],
                   'arrows': c['arrows'], 'box': box_of(s, row - 1)})
    return es, about


def run(chk):
    chk.model('MCPicture', 'MCPicture.cfg')
    ss = sessions(chk)
    vlib.warm()
    tasks = [task(s) for s in ss]
    scripts = [k for k, s in enumerate(ss) if s['kind'] != 'run']
    runs = [k for k, s in enumerate(ss) if s['kind'] == 'run']
    res = dict(zip(scripts, vlib.pmap(script, [tasks[k] for k in scripts])))
    res.update(zip(runs, vlib.pmap(shown_run, [tasks[k] for k in runs])))
    events, about, skipped = [], [], 0
    for k, s in enumerate(ss):
        if 'skipped' in res[k]:
            skipped += 1
            continue
        es, a = events_of(chk, s, res[k])
        events += es
        about += [a]*len(es)
    if len(events) < 50:
        raise vlib.Infra('almost nothing could be drawn')
    chk.count(inputs=len(ss) - skipped)
    chk.cov['pictures'] = {'pictures': sum(e['kind'] == 'picture' for e in events),
                           'periodic': sum(e['kind'] == 'picture' and e['box']['mean'] > 0
                                           for e in events), 'skipped': skipped}
    chk.validate('SDPictureTrace', 'SDPictureTrace.cfg', events, len(ss) - skipped,
                 describe=lambda i: about[i])
