------------------------------ MODULE GenSolve -----------------------------
(* Enumerates sessions of SDSolve for the harness to play on the real       *)
(* solver: every sequence of MaxOps changes of one class, for every shape   *)
(* (number of spheres, number of dumbbells).                                *)
EXTENDS MCSolve, Json
CONSTANTS Class, Shapes

VARIABLES shape
Perms(n) == {p \in [1..n -> 1..n] : \A a, b \in 1..n : a /= b => p[a] /= p[b]}
                \ {[k \in 1..n |-> k]}
OpsFor(c, sh) ==
    CASE c = "frame" -> Frames \cup Moves
      [] c = "number" ->
           [op : {"spheres"}, p : Perms(sh \div 10)]
           \cup [op : {"dumbbells"}, p : Perms(sh % 10)]
           \cup [op : {"swap"}, w : (SUBSET (1..(sh % 10))) \ {{}}]
      [] c = "scale" ->
           [op : {"length", "shrink", "viscosity"}, k : {2, 3}]
           \cup [op : {"load"}, k : {-1, 2, 3, -2}]
      [] c = "again" ->
           [op : {"again"}, prob : {1, 2},
            mode : {"plain", "later", "reuse", "print1", "print2", "print3"}]

GenInit == /\ shape \in Shapes /\ hist = <<>>
           /\ prob = 0 /\ ans = 0 /\ ans0 = 0 /\ net = 0
GenNext == /\ Len(hist) < MaxOps
           /\ \E o \in OpsFor(Class, shape) : hist' = Append(hist, o)
           /\ UNCHANGED <<prob, ans, ans0, net, shape>>
GenSpec == GenInit /\ [][GenNext]_<<vars, shape>>

Shown == Len(hist) = MaxOps =>
           PrintT("VCH " \o ToJson([shape |-> shape, chain |-> hist]))
=============================================================================
