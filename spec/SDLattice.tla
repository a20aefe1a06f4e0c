----------------------------- MODULE SDLattice -----------------------------
(* Descriptions of infinite arrays of particles.                            *)
(*                                                                          *)
(* A description gives a box (its lowest corner o and its sides L), how far *)
(* its layers in the direction `grad` are displaced along `flow` per box    *)
(* length (tilt), and the places of the spheres and of both beads of the    *)
(* dumbbells in it.  It stands for all images of them.  Each action gives   *)
(* another description of the same array; `src` says which particle of the  *)
(* first description every particle is an image of.                         *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Starts, Ops, MaxOps
VARIABLES d, d0, src, hist
vars == <<d, d0, src, hist>>

Vec(dd, n) == [k \in 1..3 |-> n[k]*dd.L[k]
               + (IF k = dd.flow THEN n[dd.grad]*dd.tilt ELSE 0)]
Plus(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
Moved(dd, x, n) == Plus(x, Vec(dd, n))
Unit(ax) == [k \in 1..3 |-> IF k = ax THEN 1 ELSE 0]
Twice(s, f(_)) == s \o [k \in DOMAIN s |-> f(s[k])]

Possible(o, dd) ==
    CASE o.op = "image" -> o.k \in DOMAIN dd.sp
      [] o.op \in {"dumbbell", "bead"} -> o.k \in DOMAIN dd.db
      [] OTHER -> TRUE
Changed(o, dd) ==
    CASE o.op = "image" -> [dd EXCEPT !.sp[o.k] = Moved(dd, @, o.n)]
      [] o.op = "dumbbell" -> [dd EXCEPT !.db[o.k] =
                                <<Moved(dd, @[1], o.n), Moved(dd, @[2], o.n)>>]
      [] o.op = "bead" -> [dd EXCEPT !.db[o.k][o.b] = Moved(dd, @, o.n)]
      [] o.op = "origin" -> [dd EXCEPT !.o = Plus(@, o.t)]
      [] o.op = "whole" -> [dd EXCEPT !.tilt = @ + o.m*dd.L[dd.flow]]
      [] o.op = "double" ->
           LET v(x) == Moved(dd, x, Unit(o.ax))
               w(b) == <<v(b[1]), v(b[2])>>
           IN [dd EXCEPT !.L[o.ax] = 2*@,
                         !.tilt = IF o.ax = dd.grad THEN 2*@ ELSE @,
                         !.sp = Twice(@, v), !.db = Twice(@, w)]
Same(x) == x
Source(o, s) == IF o.op = "double" THEN [sp |-> Twice(s.sp, Same), db |-> Twice(s.db, Same)]
                ELSE s
Count(n) == [k \in 1..n |-> k]

Init == /\ d \in Starts /\ d0 = d /\ hist = <<>>
        /\ src = [sp |-> Count(Len(d.sp)), db |-> Count(Len(d.db))]
Describe(o) == /\ Len(hist) < MaxOps /\ Possible(o, d)
               /\ d' = Changed(o, d) /\ src' = Source(o, src)
               /\ hist' = Append(hist, o) /\ UNCHANGED d0
Next == \E o \in Ops : Describe(o)
Spec == Init /\ [][Next]_vars

(* --- The array ----------------------------------------------------------- *)
(* x and y are images of each other: divide out layer by layer               *)
IsImage(dd, x, y) ==
    LET g == y[dd.grad] - x[dd.grad]
        n == g \div dd.L[dd.grad]
        f == y[dd.flow] - x[dd.flow] - n*dd.tilt
        c == 6 - dd.flow - dd.grad
    IN /\ g % dd.L[dd.grad] = 0
       /\ f % dd.L[dd.flow] = 0
       /\ (y[c] - x[c]) % dd.L[c] = 0
(* Every particle is where an image of its source is ...                    *)
Faithful ==
    /\ \A k \in DOMAIN d.sp : IsImage(d0, d0.sp[src.sp[k]], d.sp[k])
    /\ \A k \in DOMAIN d.db : \A b \in {1, 2} :
         IsImage(d0, d0.db[src.db[k]][b], d.db[k][b])
(* ... the box repeats what the first one repeats ...                       *)
Zero == <<0, 0, 0>>
Repeats == \A ax \in 1..3 : IsImage(d0, Zero, Vec(d, Unit(ax)))
(* ... nothing is counted twice, and nothing is missing: the density is     *)
(* that of the first description                                            *)
Volume(dd) == dd.L[1]*dd.L[2]*dd.L[3]
Distinct ==
    /\ \A j, k \in DOMAIN d.sp : (j # k /\ src.sp[j] = src.sp[k])
         => ~IsImage(d, d.sp[j], d.sp[k])
    /\ \A j, k \in DOMAIN d.db : \A b \in {1, 2} : (j # k /\ src.db[j] = src.db[k])
         => ~IsImage(d, d.db[j][b], d.db[k][b])
Dense == /\ Len(d.sp)*Volume(d0) = Len(d0.sp)*Volume(d)
         /\ Len(d.db)*Volume(d0) = Len(d0.db)*Volume(d)

(* --- A known array -------------------------------------------------------- *)
(* A sphere in a cubic array whose spacing is n radii, in millionths of its *)
(* motion alone: pulled by a force (Hasimoto), turned by a torque           *)
Pulled(n) == 1000000 - (2837297 \div n) + (4188790 \div (n*n*n))
Turned(n) == 1000000 - (4188790 \div (n*n*n))
=============================================================================
