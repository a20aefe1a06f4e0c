"""C23: command-line arguments decide the run and its output file."""
import json
import os
import re

import numpy as np

import child
import vlib

POS = {'sphere_sizes': [1., 1.], 'sphere_positions': [[0., 0, 0], [0, 500., 0]],
       'dumbbell_sizes': [1.], 'dumbbell_positions': [[4., 0, 1.]],
       'dumbbell_deltax': [[0., 0, 2.5]]}
PULL = 6*np.pi


def make_law(desc):
    """Everything any form needs; the first sphere is held or pulled along y,
    the second, far from all others, moves at unit speed along x."""
    seen = child.STATE['evals'] = []

    def law(n, posdata, frameno, timestep, last_velocities, form):
        seen.append((n, float(timestep), str(form), frameno,
                     bool(child.STATE.get('skip'))))
        z = np.zeros([3, 3])
        v = {'Fa': [[0, 1., 0], [PULL, 0, 0]], 'Ta': [[0, 0, 0]]*2,
             'Sa': [z]*2, 'Ea': [z]*2, 'Fb': [[1., 2, 3]], 'DFb': [[0, 1., 0]],
             'desc': desc}
        if form == 'ufte':
            v['Ua'] = [[0, 0, 0], None]
        return v
    return law


def lines(chk):
    r = vlib.tlc('MCCli', open(vlib.SPEC + '/MCCli.cfg').read(), workers=4)
    if not r.ok:
        print(r.text[-2000:])
        chk.violation('the specification SDCli fails its own properties', r.text[-2000:])
        return []
    chk.count(states=r.distinct, transitions=r.generated)
    out = [json.loads(m.group(1).replace('\\"', '"'))
           for m in re.finditer(r'^"VCH (.*)"$', r.text, re.M)]
    out.sort(key=json.dumps)
    return out


def digits(x):
    """A timestep as it is written."""
    a, b = (repr(float(x)) + '.').split('.')[:2]
    return {'whole': a, 'part': b}


DEFAULTS = [
    {'setup_number': 1010, 'input_number': 1020, 'timestep': .125, 'num_frames': 2,
     'input_form': 'ufte', 'extract_force_on_wall_due_to_dumbbells': False},
    {'setup_number': 1011, 'input_number': 1001, 'timestep': .0234375, 'num_frames': 4,
     'input_form': 'fte', 'extract_force_on_wall_due_to_dumbbells': False},
    {'setup_number': 1444, 'input_number': 1023, 'timestep': 2.5, 'num_frames': 1,
     'input_form': 'ufte', 'extract_force_on_wall_due_to_dumbbells': True}]


def event(t, r, args, d, every, setupdesc, inputdesc, typed):
    settings = {'setup': d['setup_number'], 'input': d['input_number'],
                'dt': digits(d['timestep']), 'frames': d['num_frames'],
                'form': d['input_form'],
                'wall': d['extract_force_on_wall_due_to_dumbbells']}
    o = vlib.outputs(t['cwd'])
    names = [os.path.basename(n) for n in list(o['final']) + list(o['temp'])]
    good = r.get('status') == 'ok' or (r.get('status') == 'exit'
                                       and r['detail'] in ('None', '0'))
    e = {'args': args, 'settings': settings, 'every': every, 'setupdesc': setupdesc,
         'inputdesc': inputdesc, 'typed': typed, 'ended': 'done' if good else 'error',
         'stamped': all(re.match(r'\d{10}-', n) is not None for n in names),
         'files': [re.sub(r'\.npz$', '', n)[10:] for n in names]}
    if good and len(o['final']) == 1:
        out = list(o['final'].values())[0]
        # the first call of all only asks about the flow
        used = [x for x in r['evals'] if not x[4]] or r['evals']
        main = r['evals'][1:]
        x = out['centres'][:, 1, 0]
        once = lambda v: [k for j, k in enumerate(v) if k not in v[:j]]
        form = used[-1][2]
        # with the wall force asked for, and only then, dumbbells show in it
        wall = np.array(out['force_on_wall_due_to_dumbbells'], dtype=float)
        e.update({
            'setups': once(r['setups']), 'inputs': once([v[0] for v in main]),
            'forms': once([v[2] for v in main]), 'dts': once([digits(v[1]) for v in main]),
            'moved': len(out['Fa']), 'rows': len(out['centres']),
            'step': vlib.qi(float(x[-1] - x[0])/max(1, len(x)-1), 1e6),
            'shift': vlib.qi(main[-1][1] if main else 0., 1e6), 'tol': 4000,
            'wall': bool(wall.size and np.abs(wall).max() > 1e-6) if form == 'ufte'
            else 'unseen'})
    return e


def run(chk):
    rng = chk.rng(1)
    cs = lines(chk)
    if not cs:
        return
    rng.shuffle(cs)
    short = [c for c in cs if len(c) < 4]
    long = [c for c in cs if len(c) >= 4]
    cs = short + long[:chk.pick(150, 1500)]
    tasks, keep = [], []
    for c in cs:
        d = DEFAULTS[rng.randint(3)]
        every = int(rng.choice([1, 1, 3, 10]))
        setupdesc, inputdesc = [('', ''), ('blob', ''), ('', 'grav-ity'), ('a', 'b')][
            rng.randint(4)]
        typed = str(rng.choice(['', 'try 1'])) if not c else ''
        tasks.append({'pos': POS, 'law': make_law, 'law_args': {'desc': inputdesc},
                      'setup_desc': setupdesc, 'defaults': d, 'stdin': typed + '\n',
                      'settings': {'invert_m_every': every},
                      'argv': [a['text'] for a in c]})
        keep.append((c, d, every, setupdesc, inputdesc, typed))
    res = vlib.runs(tasks)
    events, owner = [], []
    for k, (t, r, x) in enumerate(zip(tasks, res, keep)):
        if r.get('not_set'):
            continue       # settings kept elsewhere: nothing to compare with
        events.append(event(t, r, *x))
        owner.append(k)
    for e in events:
        # only runs with walls show whether the option was on
        if e.get('wall') == 'unseen':
            n = len(e['args'])
            e['wall'] = e['settings']['wall'] if n < 6 else (
                e['args'][5]['text'] in ('True', 'true', 't', 'T', '1'))
    chk.validate('SDCliTrace', 'SDCliTrace.cfg', events, len(events), describe=lambda i: {
        'argv': tasks[owner[i]]['argv'], 'defaults': keep[owner[i]][1],
        'event': {k: v for k, v in events[i].items() if k not in ('args', 'settings')},
        'result': str(res[owner[i]].get('detail'))[:300]})
    chk.count(command_lines=len(events), runs_made=sum(e['ended'] == 'done' for e in events),
              walls_seen=sum(bool(e.get('wall')) for e in events))
    if events:
        chk.sample({'argv': tasks[owner[-1]]['argv'], 'files': events[-1]['files']})
