"""C18: impossible set-ups are refused and exploding runs stop cleanly."""
import json
import re

import numpy as np

import solvelab
import steplab
import vlib

NAMES = {'F': 'Fa', 'T': 'Ta', 'S': 'Sa', 'U': 'Ua', 'E': 'Ea', 'Fb': 'Fb',
         'Db': 'DFb', 'Ub': 'Ub', 'Hb': 'HalfDUb'}


def requests(chk):
    r = vlib.tlc('GenStart', open(vlib.SPEC + '/GenStart.cfg').read(), workers=4)
    if not r.ok:
        print(r.text[-2000:])
        raise vlib.Infra('GenStart failed')
    chk.count(states=r.distinct, transitions=r.generated)
    out = [json.loads(m.group(1).replace('\\"', '"'))
           for m in re.finditer(r'^"VCH (.*)"$', r.text, re.M)]
    out.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return out


def make_law(values):
    return lambda *a: values


def place(rng, conf, apart):
    """Particles side by side, in touch with their neighbours' near fields or
    far outside of them."""
    ns, nd = conf['ns'], conf['nd']
    a = [s/100. for s in conf['sizes']]
    pos = {'sphere_sizes': a[:ns], 'sphere_positions': [], 'dumbbell_sizes': a[ns:],
           'dumbbell_positions': [], 'dumbbell_deltax': []}
    x = 0.
    for k, s in enumerate(a):
        x += apart*s
        if k < ns:
            pos['sphere_positions'].append(np.array([x, 0, 0]))
        else:
            pos['dumbbell_positions'].append(np.array([x, 0, 0]))
            pos['dumbbell_deltax'].append(np.array([0, 0, 2.5*s]))
        x += apart*s
    return pos


def ask(rng, conf):
    ns, nd = conf['ns'], conf['nd']
    vals = {}
    for f, g in NAMES.items():
        if f in ('F', 'T', 'S', 'U', 'E'):
            n = max(ns, 1) if f == 'E' and ns else ns
        else:
            n = nd
        rows = [None]*n
        for h, k in conf['given']:
            if h == f:
                rows[k-1] = np.zeros([3, 3]) if f in 'SE' else np.round(
                    rng.uniform(-.1, .1, 3), 3)
        if any(x is not None for x in rows):
            vals[g] = rows
    t = {'pos': place(rng, conf, float(rng.choice([1.2, 30.]))), 'law': make_law,
         'law_args': {'values': vals},
         'settings': {'timestepping_scheme': conf['scheme']},
         'argv': [1001 if conf['setup'] else int(rng.choice([0, 55, 999])),
                  1001 if conf['input'] else int(rng.choice([0, 55, 999])),
                  '0.1', 2, conf['form']]}
    return t


def refusals(chk, rng):
    confs = requests(chk)
    keep = []
    if chk.thorough:
        keep = confs
    else:
        rng.shuffle(confs)
        keep = confs[:480]
    tasks = [ask(rng, c) for c in keep]
    res = vlib.runs(tasks)
    events = []
    for c, t, r in zip(keep, tasks, res):
        o = vlib.outputs(t['cwd'])
        ended = {'ok': 'done'}.get(r.get('status'), 'error')
        if r.get('status') == 'exit' and r['detail'] in ('None', '0'):
            ended = 'done'
        events.append({'e': 'asked', 'conf': c, 'ended': ended,
                       'files': len(o['final']), 'temps': len(o['temp'])})

    def desc(i):
        return {'request': keep[i], 'argv': [str(x) for x in tasks[i]['argv']],
                'result': {k: str(v)[:300] for k, v in res[i].items()}}
    if not chk.validate('SDStartTrace', 'SDStartTrace.cfg', events, len(events), describe=desc):
        return False
    chk.count(requests=len(events), refused=sum(e['ended'] == 'error' for e in events))
    chk.sample({'request': keep[-1]})
    return True


def bursting(rng):
    """A run in which dumbbells stretch at their own pace."""
    nd = int(rng.randint(1, 4))
    ns = int(rng.choice([0, 0, 1]))
    scheme = str(rng.choice(['euler', 'ab2', 'rk4', 'euler']))
    n = int(rng.randint(3, 8))
    dt = (1, 10)
    pos = {'sphere_sizes': [1.]*ns, 'sphere_positions': [np.array([-40., 0, 0])]*ns,
           'dumbbell_sizes': [1.]*nd, 'dumbbell_positions': [], 'dumbbell_deltax': []}
    rows = []
    when = rng.randint(1, n + 3, nd)
    for k in range(nd):
        e = solvelab.unit(rng)
        lo = float(rng.uniform(2.2, 3.5))
        # reaching 5 between two frames, or only just
        just = rng.choice([.5, .02, .98]) if scheme != 'rk4' else .5
        rate = (5. - lo)/(when[k] - just)
        if rng.rand() < .1:
            lo, rate = 5.5, -.3          # too long from the start
        pos['dumbbell_positions'].append(np.array([0, 30.*k, 0]))
        pos['dumbbell_deltax'].append(e*lo)
        rows.append([(e*rate/2*10).tolist()])
    # ab2's first step, and every other, has the same velocity
    if ns:
        form = ('ufteu', ns, nd)
        fields = {'Ua': [[[0., 0, 0]]]*ns, 'Ta': [[[0., 0, 0]]]*ns,
                  'Ea': [[np.zeros([3, 3]).tolist()]]*ns}
    else:
        form, fields = ('duf', 0, nd), {}
    fields.update({'Ub': [[[0., 0, 0]]]*nd, 'HalfDUb': rows})
    return steplab.world(pos, form, scheme, {'fields': fields}, dt=dt, frames=n)


def explosions(chk, rng):
    worlds = [bursting(rng) for _ in range(chk.pick(60, 400))]
    tasks = []
    for w in worlds:
        for protect in (True, False):
            s = dict(w['settings'], explosion_protection=protect)
            tasks.append(steplab.script(dict(w, settings=s)))
    res = vlib.runs(tasks)
    events, owner = [], []
    for k, w in enumerate(worlds):
        outs = [steplab.output(t['cwd']) for t in tasks[2*k:2*k+2]]
        for protect in (True, False):
            r, o = (res[2*k], outs[0]) if protect else (res[2*k+1], outs[1])
            e = {'e': 'burst', 'protect': protect, 'path': [], 'got': [], 'forces': 0,
                 'ended': 'done' if r.get('status') == 'ok' and o is not None else 'error'}
            if e['ended'] == 'done' and outs[1] is not None:
                # without protection the lengths are known beforehand
                e['path'] = path(w) if not protect else [
                    [vlib.q(x, 1e3) for x in f] for f in outs[1]['deltax']]
                e['got'] = [[vlib.q(x, 1e3) for x in f] for f in o['deltax']]
                e['forces'] = len(o['Fb'])
            events.append(e)
            owner.append((w, r))
    if not chk.validate('SDStartTrace', 'SDStartTrace.cfg', events, len(worlds),
                        describe=lambda i: {
                            'scheme': owner[i][0]['scheme'], 'frames': owner[i][0]['frames'],
                            'pos': owner[i][0]['pos'], 'fields': owner[i][0]['law']['fields'],
                            'protect': events[i]['protect'],
                            'result': {k: str(v)[:300] for k, v in owner[i][1].items()}}):
        return False
    chk.count(explosions=len(worlds))
    return True


def path(w):
    """Lengths grow steadily."""
    x = [np.array(v, dtype=float) for v in w['pos']['dumbbell_deltax']]
    v = [np.array(r[0]) for r in w['law']['fields']['HalfDUb']]
    return [[vlib.q(a + 2*b*f/10, 1e3) for a, b in zip(x, v)]
            for f in range(w['frames'] + 1)]


def run(chk):
    chk.model('MCStart', 'MCStart.cfg')
    rng = chk.rng(1)
    if refusals(chk, rng):
        explosions(chk, rng)
