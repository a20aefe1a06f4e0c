"""C19: the reported wall force due to dumbbells is exactly their share."""
import json
import re

import numpy as np

import solvelab
import steplab
import vlib

PART = {'held': 'U', 'free': 'F', 'torque': 'T', 'strain': 'E'}


def chains(chk, length):
    cfg = open(vlib.SPEC + '/GenWall.cfg').read().replace('MaxOps = 3', 'MaxOps = %d' % length)
    r = vlib.tlc('GenWall', cfg, workers=4)
    if not r.ok:
        print(r.text[-2000:])
        raise vlib.Infra('GenWall failed')
    chk.count(states=r.distinct, transitions=r.generated)
    out = [json.loads(m.group(1).replace('\\"', '"'))
           for m in re.finditer(r'^"VCH (.*)"$', r.text, re.M)]
    out.sort(key=lambda c: json.dumps(c, sort_keys=True))
    return out


def change(rng, p, asked, o):
    full = {k: np.array(v) for k, v in p['full'].items()}
    if o['op'] == 'other':
        new = solvelab.values(rng, p['pos'])
        full[PART[o['part']]] = new[PART[o['part']]]*rng.choice([1, 5, 0])
    elif o['op'] == 'scale':
        for f in ('Fb', 'Db'):
            full[f] = full[f]*o['by']
    elif o['op'] == 'quiet':
        for f in ('Fb', 'Db'):
            full[f] = full[f]*0
    elif o['op'] == 'alone':
        for f in PART.values():
            full[f] = full[f]*0
    elif o['op'] == 'ask':
        asked = not asked
    return dict(p, full=full, opts={'extract': asked}), asked


def session(rng, p, chain):
    p = dict(p, full={k: np.array(v)*(10 if k in ('Fb', 'Db') else 1)
                      for k, v in p['full'].items()})
    asked = bool(rng.rand() < .8) or chain == []
    out = [({'op': 'base', 'by': 0}, dict(p, opts={'extract': asked}), asked)]
    for o in chain:
        q, asked = change(rng, out[-1][1], asked, o)
        out.append((o, q, asked))
    return out


def event(o, p, asked, r, sc, tol):
    n = p['form'][1]
    e = {'op': o['op'], 'by': o.get('by', 0), 'asked': asked, 'ok': 'error' not in r,
         'tol': tol, 'f': [], 'w': [], 'rest': []}
    flat = lambda v: [int(x) for x in np.array(v).reshape(-1)]
    if e['ok']:
        e['f'] = flat(vlib.q(r['Fa'][:n], sc['F']))
        if asked:
            e['w'] = flat(vlib.q(np.array(r['wall_force'], dtype=float), sc['F']))
        rec = solvelab.record(r, sc)
        e['rest'] = [x for f in sorted(rec) for x in flat(rec[f])]
    return e


def judge(chk, sessions, answers, what):
    events, owner, it = [], [], iter(answers)
    for s in sessions:
        rs = [next(it) for _ in s]
        sc = solvelab.scales(rs)
        tol = max(solvelab.tolerance(p) for _, p, _ in s)
        for (o, p, asked), r in zip(s, rs):
            events.append(event(o, p, asked, r, sc, tol))
            owner.append((o, p, asked, r))
    if not chk.validate('SDWallTrace', 'SDWallTrace.cfg', events, len(sessions),
                        describe=lambda i: {
                            'op': owner[i][0], 'asked': owner[i][2],
                            'problem': solvelab.describe(owner[i][1], owner[i][3]),
                            'wall force': str(owner[i][3].get('wall_force'))[:600],
                            'before': str(owner[i-1][3].get('wall_force'))[:600]}):
        return False
    chk.count(**{what: len(events)})
    return True


def saved(o, form):
    """A saved frame as an answer."""
    if o is None:
        return {'error': 'no output'}
    r = {'Fa': o['Fa'][-1], 'wall_force': o['force_on_wall_due_to_dumbbells'][-1]}
    for f, g in solvelab.FIELDS.items():
        r.setdefault(g, np.zeros([0, 3]))
    for k in ('Fb', 'DFb'):
        r[k] = o[k][-1]
    return r


def frames(chk, rng):
    """The same through runs of the script: steps too short to move anything."""
    sessions, tasks = [], []
    for _ in range(chk.pick(24, 120)):
        ns, nd = int(rng.randint(1, 4)), int(rng.randint(1, 3))
        p = solvelab.random_problem(rng, ns, nd, form=('ufte', int(rng.randint(1, ns+1)), 0),
                                    palette=((1,), (1,)))
        chain = [[{'op': 'quiet'}], [{'op': 'ask'}], [{'op': 'alone'}],
                 [{'op': 'scale', 'by': 2}]][rng.randint(4)]
        s = session(rng, p, chain)
        scheme = str(rng.choice(['euler', 'ab2', 'rk4']))
        n = int(rng.randint(1, 4))
        for _, q, asked in s:
            vals = solvelab.task(q)['vals']
            tasks.append({'pos': q['pos'], 'law': make_law, 'law_args': {'vals': vals},
                          'settings': {'timestepping_scheme': scheme},
                          'argv': [1001, 1001, '1e-08', n, 'ufte', str(asked)]})
        sessions.append(s)
    vlib.runs(tasks)
    answers = [saved(steplab.output(t['cwd']), None) for t in tasks]
    return judge(chk, sessions, answers, 'saved_frames')


def make_law(vals):
    return lambda *a: vals


def run(chk):
    chk.model('MCWall', 'MCWall.cfg')
    rng = chk.rng(1)
    cs = chains(chk, chk.pick(3, 4))
    rng.shuffle(cs)
    sessions = []
    for c in cs[:chk.pick(120, 1000)]:
        ns, nd = int(rng.randint(1, 5)), int(rng.randint(0, 4))
        nd = nd or int(rng.rand() < .8)
        form = ('ufte', int(rng.randint(0 if rng.rand() < .1 else 1, ns+1)), 0)
        sessions.append(session(rng, solvelab.random_problem(rng, ns, nd, form=form), c))
    for c in cs[-chk.pick(8, 40):]:
        ns, nd = int(rng.randint(1, 3)), 1
        p = solvelab.random_periodic(rng, ns, nd, form=('ufte', int(rng.randint(1, ns+1)), 0),
                                     settings=solvelab.FAR,
                                     gamma=[None, .4][rng.randint(2)])
        sessions.append(session(rng, p, c))
    answers = vlib.solves([solvelab.task(p) for s in sessions for _, p, _ in s])
    if judge(chk, sessions, answers, 'solves'):
        frames(chk, rng)
