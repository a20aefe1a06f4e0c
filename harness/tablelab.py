"""The folder of the table scripts: made in a scratch directory, its scripts
run there, its files read back."""
import glob
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

import vlib

NAMES = ['XA', 'YA', 'YB', 'XC', 'YC', 'XG', 'YG', 'YH', 'XM', 'YM', 'ZM']
# Closer spheres have the far field of this scaled distance
CLOSEST = 2.001
POWER = dict(zip('ABCGHM', (1, 2, 3, 2, 3, 3)))
SOURCE = vlib.REPO + '/find_resistance_scalars'
USED = vlib.REPO + '/stokesian_dynamics/resistance_scalars'


def folder():
    """A copy of the scripts without any tables; the code they import beside."""
    d = tempfile.mkdtemp(dir=vlib.scratch())
    os.makedirs(d + '/find_resistance_scalars')
    for f in glob.glob(SOURCE + '/*.py'):
        shutil.copy(f, d + '/find_resistance_scalars')
    for f in glob.glob(SOURCE + '/helen_fortran'):
        shutil.copytree(f, d + '/find_resistance_scalars/helen_fortran')
    shutil.copytree(vlib.REPO + '/stokesian_dynamics', d + '/stokesian_dynamics',
                    ignore=shutil.ignore_patterns('__pycache__', 'output', '*.mp4', '*.gif', '*.png'))
    return d + '/find_resistance_scalars'


def script(cwd, name, timeout=600):
    env = {k: v for k, v in os.environ.items()}
    env.update(PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1',
               MPLBACKEND='Agg')
    try:
        p = subprocess.run([sys.executable, name], cwd=cwd, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           text=True)
        return p.returncode == 0, p.stdout[-1500:]
    except subprocess.TimeoutExpired:
        return False, 'still running after %s s' % timeout


def load(cwd, name):
    try:
        return np.load(cwd + '/' + name)
    except (OSError, ValueError):
        return None


def loadtxt(cwd, name):
    try:
        return np.loadtxt(cwd + '/' + name, ndmin=1)
    except (OSError, ValueError):
        return np.zeros(0)


def printed(path):
    """The lines of the last table in a file of printed tables."""
    try:
        with open(path) as f:
            text = f.read().split('\n')
    except OSError:
        return None
    rows = []
    for line in reversed(text):
        try:
            v = [float(x) for x in line.split()]
        except ValueError:
            break
        if v:
            rows.append(v)
    return rows[::-1]


def by_entry(t):
    """[separation][ratio][entry], own entries first."""
    return np.concatenate([t[:, 0], t[:, 1]]).transpose(1, 2, 0)


def as_file(v):
    """[separation][ratio][entry] as the files have it."""
    v = np.array(v).transpose(2, 0, 1)
    return np.array([v[:11], v[11:]]).transpose(1, 0, 2, 3)


def own(lam, s):
    """Far-field scalars, own and other's, of a sphere of radius 1 with one of
    radius lam at scaled distance s: SDFar's responses, inverted."""
    size = (1., float(lam))
    r = max(s, CLOSEST)*(1 + lam)/2
    M = np.zeros([22, 22])      # U, O (3 each), E (5) of one, then of the other
    turn = np.array([-1, -1, 1, -1, -1, 1, 1, 1, -1, -1, 1.])
    for i in (0, 1):
        a = size[i]
        M[11*i:11*i+11, 11*i:11*i+11] = np.diag(
            [4/(3*a)]*3 + [1/a**3]*3 + [6/(5*a**3)]*5)
        b = size[1-i]
        q = a*a + b*b
        m = np.zeros([11, 11])
        U, O, E = 0, 3, 6
        m[U, 0] = (6*r*r - 2*q)/(3*r**3)
        m[U+1, 1] = m[U+2, 2] = (3*r*r + q)/(3*r**3)
        m[U, 6] = (15*r*r - 3*(3*a*a + 5*b*b))/(5*r**4)
        m[U+1, 7] = m[U+2, 8] = 2*(3*a*a + 5*b*b)/(5*r**4)
        m[U+1, 5], m[U+2, 4] = 1/r**2, -1/r**2
        m[O, 3] = 1/r**3
        m[O+1, 4] = m[O+2, 5] = -1/(2*r**3)
        m[O+1, 2], m[O+2, 1] = 1/r**2, -1/r**2
        m[O+1, 8], m[O+2, 7] = 3/r**3, -3/r**3
        m[E, 0] = (2*(5*a*a + 3*b*b) - 10*r*r)/(5*r**4)
        m[E+1, 1] = m[E+2, 2] = -(5*a*a + 3*b*b)/(5*r**4)
        m[E+1, 5], m[E+2, 4] = -3/(2*r**3), 3/(2*r**3)
        m[E, 6] = (36*q - 30*r*r)/(5*r**5)
        m[E+1, 7] = m[E+2, 8] = (15*r*r - 24*q)/(5*r**5)
        m[E+3, 9] = m[E+4, 10] = 6*q/(5*r**5)
        if i == 1:
            m = turn[:, None]*m*turn
        M[11*(1-i):11*(1-i)+11, 11*i:11*i+11] = m
    R = np.linalg.inv(M)
    out = []
    for g in (0, 1):
        o = 11*g
        out += [R[0, o]/.75, R[1, o+1]/.75, R[4, o+2]/.5, R[3, o+3], R[4, o+4],
                1.5*R[6, o]/.5, R[7, o+1]/.5, R[7, o+5],
                R[6, o+6]/(5/6), R[7, o+7]/(5/6), R[9, o+9]/(5/6)]
    return np.array(out)
