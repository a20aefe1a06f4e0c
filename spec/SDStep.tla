------------------------------- MODULE SDStep ------------------------------
(* How a run advances its particles, one evaluation of the velocities at a  *)
(* time.                                                                    *)
(*                                                                          *)
(* Points are what the schemes advance: centres of spheres and dumbbells    *)
(* (kind "c") and separations of dumbbells (kind "s").  A frame consists of *)
(* one evaluation (Euler, Adams-Bashforth) or four (Runge-Kutta), each at   *)
(* its own place and time, and of the advance itself.  Coordinates are      *)
(* integers in some unit; a timestep is dn/dd; times are counted in half    *)
(* frames.                                                                  *)
EXTENDS SDVec, FiniteSets

VARIABLES
    cfg,        \* scheme, timestep, options, box: fixed during a run
    frame,      \* number of the frame being computed
    at,         \* points at the start of the frame
    vels,       \* total velocities of the points, one entry per evaluation
    prev,       \* velocities remembered from the last frame (<<>>: none)
    spins,      \* angular velocities, one entry per evaluation
    turned,     \* angular velocities remembered from the last frame
    marks,      \* rotation markers, relative to the centres: two per sphere
    stored,     \* the evaluation whose far field is stored
    used,       \* the evaluation whose far field the last evaluation used
    loads       \* forces found by each evaluation
svars == <<cfg, frame, at, vels, prev, spins, turned, marks, stored, used, loads>>

RoundDiv(n, d) == IF n >= 0 THEN (2*n + d) \div (2*d) ELSE -((2*(-n) + d) \div (2*d))

(***************************************************************************)
(* Schemes                                                                  *)
(***************************************************************************)
Evaluations == IF cfg.scheme = "rk4" THEN 4 ELSE 1
HalfFrames(k) == <<0, 1, 1, 2>>[k]
Now(k) == 2*frame + HalfFrames(k)

(* The place of evaluation k: half a step or a whole one along the velocity *)
(* of the evaluation before.                                                *)
Along(x, v, halves) ==
    [c \in 1..3 |-> x[c] + RoundDiv(halves*cfg.dn*v[c], 2*cfg.dd)]
Place(k) == IF k = 1 THEN at
            ELSE [p \in DOMAIN at |-> Along(at[p], vels[k-1][p], HalfFrames(k))]

(* Combinations, as numerator over Under *)
FirstFrame == frame = cfg.first
Under == CASE cfg.scheme = "rk4" -> 6
           [] cfg.scheme = "ab2" /\ ~FirstFrame -> 2
           [] OTHER -> 1
Blend(s, old) ==
    CASE cfg.scheme = "rk4" ->
            Plus(Plus(s[1], s[4]), Times(2, Plus(s[2], s[3])))
      [] cfg.scheme = "ab2" /\ ~FirstFrame -> Minus(Times(3, s[1]), old)
      [] OTHER -> s[1]
Column(m, p) == [k \in DOMAIN m |-> m[k][p]]
Old(m, p) == IF m = <<>> THEN V0 ELSE m[p]
Combined(p) == Blend(Column(vels, p), Old(prev, p))

(* Two-dimensional runs stay in their plane *)
InPlane(v) == IF cfg.plane THEN <<v[1], 0, v[3]>> ELSE v
Target(p) == LET v == InPlane(Combined(p))
             IN [c \in 1..3 |-> at[p][c] + RoundDiv(cfg.dn*v[c], cfg.dd*Under)]

(* Forces are those of the first evaluation, or combined as positions are   *)
LoadUnder == IF cfg.scheme = "rk4" THEN 6 ELSE 1
Load(j) == IF cfg.scheme = "rk4"
           THEN loads[1][j] + 2*loads[2][j] + 2*loads[3][j] + loads[4][j]
           ELSE loads[1][j]

(***************************************************************************)
(* Background flow: translation U, rotation O and strain E about centre c,  *)
(* O and E as integers over d.                                              *)
(***************************************************************************)
Linear(fl, r) ==
    LET w == Plus(Cross(fl.O, r), MatVec(fl.E, r))
    IN [c \in 1..3 |-> RoundDiv(w[c], fl.d)]
Carried(kind, rel, x, fl) ==
    IF kind = "c" THEN Plus(rel, Plus(fl.U, Linear(fl, Minus(x, fl.c))))
    ELSE Plus(rel, Linear(fl, x))

(***************************************************************************)
(* Periodic boxes: sides L; the lattice vector of axis `grad` is tilted     *)
(* along axis `flow` by an amount that depends on time.                     *)
(***************************************************************************)
Boxed == cfg.box.on
Axes == 1..3
LatticeShift(d, tilt, tol) ==
    LET L == cfg.box.L  f == cfg.box.flow  g == cfg.box.grad
        n == RoundDiv(d[g], L[g])
        rest == [d EXCEPT ![f] = @ - n*tilt]
    IN /\ \A c \in Axes : LET m == RoundDiv(rest[c], L[c])
                          IN Near(rest[c], m*L[c], tol)

(* In the box as sheared (coarse: boxes are large, units small). The tilt   *)
(* may be reduced by whole box lengths.                                     *)
Shrunk(n) == RoundDiv(n, cfg.box.coarse)
Inside(x, tilt) ==
    LET L == cfg.box.L  f == cfg.box.flow  g == cfg.box.grad
        slack == cfg.box.slack
        In(v, l) == 2*Abs(v) <= l + slack
    IN /\ \A c \in Axes \ {f} : In(x[c], L[c])
       /\ \E n \in -3..3 :
            LET lean == RoundDiv(Shrunk(tilt + n*L[f])*Shrunk(x[g]), Shrunk(L[g]))
            IN In(x[f] - cfg.box.coarse*lean, L[f])

(***************************************************************************)
(* Rotation markers.  Angular velocities are integer vectors in the unit    *)
(* (basic angle)/(norm times timestep): a combined vector of length norm*m  *)
(* turns the markers by m basic angles.  cos = c/h, sin = s/h.              *)
(***************************************************************************)
Root(n) == CHOOSE r \in 0..(n+1) : r*r <= n /\ (r+1)*(r+1) > n
Norm(v) == Root(Dot(v, v))
RECURSIVE Angle(_)
Angle(m) ==                 \* cosine, sine and denominator of m basic angles
    IF m = 0 THEN <<1, 0, 1>>
    ELSE LET g == cfg.angle
             a == Angle(m - 1)
         IN <<g.c*a[1] - g.s*a[2], g.s*a[1] + g.c*a[2], g.h*a[3]>>
Turn(r, d, N, m) ==         \* m basic angles about the axis d, of length N
    LET g == Angle(m)
        reach == RoundDiv(Dot(d, r), N)
        along == [c \in Axes |-> RoundDiv(d[c]*reach, N)]
        cross == Cross(d, r)
    IN [c \in Axes |-> along[c] + RoundDiv(
            g[1]*(r[c] - along[c]) + g[2]*RoundDiv(cross[c], N), g[3])]
Spin(p) == LET w == Blend(Column(spins, p), Old(turned, p))
           IN [c \in Axes |-> RoundDiv(w[c], Under)]
Turned(r, w) ==
    IF w = V0 THEN r
    ELSE LET n == Norm(w)  m == n \div cfg.norm
             d == [c \in Axes |-> w[c] \div m]
         IN Turn(r, d, cfg.norm, m)
Marker(p, j) == Turned(marks[p][j], Spin(p))

(***************************************************************************)
(* Actions                                                                  *)
(***************************************************************************)
Refreshing == frame % cfg.every = 0 \/ FirstFrame
SourceOf(k) == IF Refreshing /\ (k = 1 \/ cfg.each) THEN <<frame, k>>
               ELSE IF k > 1 /\ Refreshing THEN <<frame, 1>> ELSE stored

(* Evaluation k, of velocities v (total), angular velocities w and forces f *)
Evaluate(k, v, w, f) ==
    /\ k = Len(vels) + 1 /\ k <= Evaluations
    /\ vels' = Append(vels, v)
    /\ spins' = Append(spins, w)
    /\ loads' = Append(loads, f)
    /\ used' = SourceOf(k)
    /\ stored' = IF k = 1 /\ Refreshing THEN <<frame, 1>> ELSE stored
    /\ UNCHANGED <<cfg, frame, at, prev, turned, marks>>

(* The frame ends with the points at y, which may be images of where they   *)
(* were carried; fl is the flow of the first evaluation.                    *)
Advance(y, m, fl) ==
    /\ Len(vels) = Evaluations
    /\ at' = y
    /\ marks' = m
    /\ prev' = [p \in DOMAIN at |->
                  IF cfg.kinds[p] = "c" /\ Boxed
                  THEN Plus(vels[1][p], Linear(fl, Minus(y[p], Target(p))))
                  ELSE vels[1][p]]
    /\ turned' = spins[1]
    /\ frame' = frame + 1
    /\ vels' = <<>> /\ spins' = <<>> /\ loads' = <<>>
    /\ UNCHANGED <<cfg, stored, used>>

Start(c, x, m) ==
    /\ cfg = c /\ frame = c.first /\ at = x /\ marks = m
    /\ vels = <<>> /\ prev = <<>> /\ spins = <<>> /\ turned = <<>>
    /\ loads = <<>> /\ stored = <<-1, -1>> /\ used = <<-1, -1>>
=============================================================================
