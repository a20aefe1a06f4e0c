"""C30: the message a run sends when it is complete.

Real runs with a mail server of ours in place of the network, which fails at a
chosen step. SDMailTrace validates the steps, the message and how the run ends."""
import datetime
import email
import glob
import os
import re
import smtplib
import socket

import numpy as np

import child
import runlab
import vlib

FAILURES = [OSError('no route'), smtplib.SMTPException('refused'),
            smtplib.SMTPNotSupportedError('not supported'), ValueError('strange answer'),
            smtplib.SMTPAuthenticationError(535, b'no'), socket.timeout('slow'),
            ConnectionResetError('reset')]


# --- In the child ---------------------------------------------------------------

def finished(cwd):
    """Whether there is a complete output and no backup."""
    done = [f for f in glob.glob(cwd + '/output/*.npz') if not f.endswith('_TEMP.npz')]
    if len(done) != 1 or len(glob.glob(cwd + '/output/*_TEMP.npz')):
        return 0, ''
    try:
        with np.load(done[0]) as z:
            for k in z.files:
                z[k]
    except Exception:
        return 0, ''
    return 1, os.path.basename(done[0])[:-len('.npz')]


def read_message(text, sender, recipients, stem, total, began):
    m = email.message_from_string(text)
    body = m.get_payload()
    return {'from': int(m['From'] == sender), 'to': int(
                m['To'] is not None and set(re.split(', *', m['To'])) == set(recipients)),
            'subject': int(m['Subject'] is not None and socket.gethostname() in m['Subject']
                           and 'complete' in m['Subject']),
            'file': int(stem in body), 'time': int(total.strip() in body and any(
                d.strftime('%d %B %Y, %H:%M') in body for d in began))}


def session(t):
    steps = []

    def step(name, message=None):
        saved, stem = finished(t['cwd'])
        e = {'kind': 'step', 'step': name, 'saved': saved}
        if message:
            e['message'] = message + (stem,)
        steps.append(e)
        if name == t['fails']:
            raise t['how']

    class Server:
        secure = False

        def __init__(self, *a, **k):
            step('connect')
            if self.secure:
                step('tls')

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def starttls(self, *a, **k):
            step('tls')

        def login(self, *a, **k):
            step('login')

        def sendmail(self, sender, recipients, message, *a, **k):
            if isinstance(message, bytes):
                message = message.decode()
            to = [recipients] if isinstance(recipients, str) else list(recipients)
            step('send', (message, sender, to))

        def send_message(self, m, *a, **k):
            step('send', (m.as_string(), m['From'], re.split(', *', m['To'])))

        def __getattr__(self, name):        # ehlo, close, quit, ...
            return lambda *a, **k: None

    class Secure(Server):
        secure = True
    smtplib.SMTP, smtplib.SMTP_SSL = Server, Secure
    r = child.run_script(t)
    r['steps'] = steps
    r['saved'] = finished(t['cwd'])[0]
    return r


# --- Runs -------------------------------------------------------------------------

def make_law():
    def law(n, posdata, frameno, timestep, last_velocities, form):
        return {'Fa': [[.1, .2, .3]], 'Ta': [[0, 0, 0]], 'Ea': [[[0]*3]*3]}
    return law


def run(chk):
    chk.model('MCMail', 'MCMail.cfg')
    rng = chk.rng(1)
    sessions, tasks = [], []
    for fails in ('none', 'connect', 'tls', 'login', 'send', 'not asked'):
        for k in range(chk.pick(len(FAILURES), 4*len(FAILURES))):
            s = {'asked': fails != 'not asked', 'fails': 'none' if fails == 'not asked' else fails,
                 'n': int(rng.randint(1, 4)), 'how': k % len(FAILURES),
                 'backups': bool(rng.randint(2)), 'cwd': vlib.newdir('m')}
            sessions.append(s)
            c = runlab.cfg(s['n'], backups=s['backups'])
            t = runlab.task('steady', c, s['cwd'], extra={'email_on_completion': s['asked']})
            tasks.append(dict(t, pos={'sphere_sizes': [1.], 'sphere_positions': [[0., 0, 0]],
                                      'dumbbell_sizes': [], 'dumbbell_positions': [],
                                      'dumbbell_deltax': []},
                              law=make_law, law_args={}, fails=s['fails'],
                              how=FAILURES[s['how']], argv=[1001, 1001, .25, s['n'], 'fte']))
    vlib.warm()
    now = datetime.datetime.now()
    began = [now + datetime.timedelta(minutes=k) for k in range(15)]
    events, about = [], []
    for s, r in zip(sessions, vlib.pmap(session, tasks)):
        with open(s['cwd'] + '/stdout.txt', errors='replace') as f:
            text = f.read()
        total = re.findall(r'\[Total time to run (.*?)\]', text)
        for e in r.get('steps', []):
            if 'message' in e:
                e['message'] = read_message(*e['message'], total[0] if total else 'no total', began)
        said = ('sent' if '[Email sent]' in text else
                'failed' if '[Failed to send email]' in text else 'nothing')
        es = [{'kind': 'start', 'asked': s['asked'], 'fails': s['fails']}] + r.get('steps', []) + [
            {'kind': 'end', 'status': r['status'], 'saved': r.get('saved', 0), 'said': said}]
        events += es
        about += [dict({k: v for k, v in s.items() if k != 'cwd'}, detail=r.get('detail'))]*len(es)
    chk.count(inputs=len(sessions))
    chk.validate('SDMailTrace', 'SDMailTrace.cfg', events, len(sessions),
                 describe=lambda i: about[i])
