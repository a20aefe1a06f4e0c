----------------------------- MODULE GenLattice ----------------------------
(* Enumerates successions of descriptions for the harness to solve, for     *)
(* every shape (number of spheres, number of dumbbells).                    *)
EXTENDS MCLattice, Json
At(k) == <<k, 2*k % 6, 3>>
Shape(ns, nd) == [L |-> <<5, 6, 7>>, o |-> <<0, 0, 0>>, flow |-> 1, grad |-> 3, tilt |-> 0,
                  sp |-> [k \in 1..ns |-> At(k)],
                  db |-> [k \in 1..nd |-> <<At(k + 5), At(k + 8)>>]]
GenStarts == {Shape(1, 0), Shape(2, 0), Shape(1, 1), Shape(0, 1)}
(* one doubling is enough                                                   *)
Doublings(h) == Cardinality({k \in DOMAIN h : h[k].op = "double"})
Shown == (Len(hist) = MaxOps /\ Doublings(hist) <= 1) =>
    PrintT("VCH " \o ToJson([ns |-> Len(d0.sp), nd |-> Len(d0.db), chain |-> hist]))
=============================================================================
