"""C03: results do not depend on the observer's frame of reference."""
import solvelab


def run(chk):
    chk.model('MCSolve', 'MCSolve.cfg')
    rng = chk.rng(1)
    shapes = [(1, 0), (2, 0), (3, 0), (0, 1), (0, 2), (1, 1), (2, 1), (2, 2), (4, 3)]
    ch = solvelab.chains(chk, 'frame', shapes, chk.pick(2, 3))
    sessions = []
    for shape in shapes:
        for ops in ch[shape]*2:
            p = solvelab.random_problem(rng, *shape)
            if rng.rand() < .15:
                p['opts'] = {'cutoff': float(rng.choice([1.5, 2.2]))}
            elif rng.rand() < .1:
                p['opts'] = {'minf_only': True}
            elif rng.rand() < .1:
                p['opts'] = {'drag': True}
            sessions.append((p, ops))
    if not solvelab.play(chk, sessions, 'frame'):
        return
    # Periodic boxes: the changes which keep the box upright
    sessions = []
    upright = [c for c in solvelab.chains(chk, 'frame', [(2, 0)], 1)[2, 0]
               if c[0].get('d', 1) == 1]
    for k in range(chk.pick(9, 36)):
        for j, ops in enumerate(upright):
            shape = [(2, 0), (1, 1), (0, 1), (1, 0)][(k+j) % 4]
            gamma = [None, .35, -.5, .6][(k+j//2) % 4]
            sessions.append((solvelab.random_periodic(
                rng, *shape, gamma=gamma, flow=k % 3,
                grad=(k+1+(k//3) % 2) % 3), ops))
    solvelab.play(chk, sessions, 'periodic frame', solvelab.FAR)
