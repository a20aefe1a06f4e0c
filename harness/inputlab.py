"""What the repository's supplied input functions give."""
import inspect
import io
import os
import sys

import numpy as np

import child
import vlib

RETURNED = child.FIELDS + ['desc', 'U', 'O', 'centre', 'Ot', 'Et', 'bl', 'tr', 'mu']
FLOW = ['Ea', 'U', 'O', 'centre', 'Ot', 'Et']


def helper(name, needs):
    """A supplied function, if it is there and takes these parameters."""
    try:
        import setups.functions_inputs as m
        f = getattr(m, name)
        if set(needs) <= set(inspect.signature(f).parameters):
            return f
    except (ImportError, AttributeError, TypeError, ValueError):
        pass
    return None


def one(c):
    try:
        if c['kind'] == 'input':
            import setups.inputs as si
            p = child.make_posdata(c['pos'])
            ns, nd = len(p[0]), len(p[3])
            r = si.input_ftsuoe(c['n'], p, c['frame'], c['dt'],
                                [np.zeros([ns, 3]), np.zeros([nd, 3]), np.zeros([nd, 3]),
                                 np.zeros([ns, 3])], input_form=c['form'])
            return dict(zip(RETURNED, r))
        f = helper(c['kind'], c['args'])
        if f is None:
            return {'absent': True}
        r = f(**c['args'])
        return dict(zip(['Fa', 'Fb', 'DFb'] if c['kind'] == 'repulsion_forces' else FLOW, r))
    except BaseException as e:
        return {'error': '%s: %s' % (type(e).__name__, e)}


def chunk(task):
    os.chdir(task['cwd'])
    sys.stdout = io.StringIO()
    child.boot(['1', '1'])
    return [one(c) for c in task['cases']]


def ask(cases):
    n = vlib.NPROC
    tasks = [{'cwd': vlib.newdir('i'), 'cases': cases[k::n]} for k in range(n)]
    res = vlib.pmap(chunk, tasks)
    out = [None]*len(cases)
    for k, r in enumerate(res):
        for j, i in enumerate(range(k, len(cases), n)):
            out[i] = r[j] if isinstance(r, list) else {'error': str(r)[:500]}
    return out
