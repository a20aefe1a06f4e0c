------------------------------- MODULE SDNear ------------------------------
(* The near field of a configuration, assembled pair by pair.               *)
(*                                                                          *)
(* Particles (spheres and beads of dumbbells) have whole coordinates and    *)
(* radii.  In a box with sides L, whose layers in the direction `grad` are  *)
(* displaced in the direction `flow` by `tilt` per box length, a particle   *)
(* stands for all its images.  What is held for a given motion is the far   *)
(* field's part (or, with drag only, each particle's own Stokes drag) plus, *)
(* unless the near field is switched off, the part of every pair whose      *)
(* nearest images are closer than the cutoff (cut[1]/cut[2] times the       *)
(* distance at which they touch).                                           *)
EXTENDS Integers, Sequences, FiniteSets

NoBox == [on |-> FALSE]
Sq(x) == x*x
Shifted(box, d, n) == [k \in 1..3 |->
    d[k] + n[k]*box.L[k] + (IF k = box.flow THEN n[box.grad]*box.tilt ELSE 0)]
Len2(d) == Sq(d[1]) + Sq(d[2]) + Sq(d[3])
Displacement(p, q) == [k \in 1..3 |-> q.x[k] - p.x[k]]
(* The image of q nearest to p: across the layers of the box, the best      *)
(* image is found side by side; so one candidate for each layer suffices    *)
Whole(x, L) == -((2*x + L) \div (2*L))      \* x + L*Whole(x, L) lies in [-L/2, L/2)
Candidate(box, d, g) ==
    LET n == [k \in 1..3 |-> IF k = box.grad THEN g ELSE 0]
        e == Shifted(box, d, n)
    IN [k \in 1..3 |-> IF k = box.grad THEN g ELSE Whole(e[k], box.L[k])]
NearestOf(box, d) == IF ~box.on THEN <<0, 0, 0>>
    ELSE LET g == Whole(d[box.grad], box.L[box.grad])
             a == Candidate(box, d, g - 1)
             b == Candidate(box, d, g)
             c == Candidate(box, d, g + 1)
             la == Len2(Shifted(box, d, a))
             lb == Len2(Shifted(box, d, b))
             lc == Len2(Shifted(box, d, c))
         IN IF lb <= la /\ lb <= lc THEN b ELSE IF la <= lc THEN a ELSE c
Apart(box, d, n) == IF box.on THEN Len2(Shifted(box, d, n)) ELSE Len2(d)
Close(box, cut, p, q) ==
    LET d == Displacement(p, q) IN
    Sq(cut[2])*Apart(box, d, NearestOf(box, d)) < Sq(cut[1]*(p.a + q.a))

(* Contributions (tuples of whole numbers, one entry per component of the   *)
(* whole configuration) add up                                              *)
Add(x, y) == [j \in DOMAIN x |-> x[j] + y[j]]
RECURSIVE Total(_, _)
Total(start, parts) == IF parts = <<>> THEN start
                       ELSE Total(Add(start, Head(parts)), Tail(parts))

(***************************************************************************)
(* Assembling: pairs are visited in any order.  Far and Near give the parts *)
(* of a configuration and of a pair.                                        *)
(***************************************************************************)
CONSTANTS Radii, Places, Cuts, Boxes, Far(_), Stokes(_), Near(_, _, _)
VARIABLES parts, box, cut, near, drag, seen, held
vars == <<parts, box, cut, near, drag, seen, held>>
Pairs == {p \in (DOMAIN parts) \X (DOMAIN parts) : p[1] < p[2]}
Base == IF drag THEN Stokes(parts) ELSE Far(parts)
Init == /\ parts \in Places /\ box \in Boxes /\ cut \in Cuts
        /\ near \in BOOLEAN /\ drag \in BOOLEAN
        /\ seen = {} /\ held = Base
Visit(p) == /\ p \in Pairs \ seen
            /\ seen' = seen \union {p}
            /\ held' = IF near /\ Close(box, cut, parts[p[1]], parts[p[2]])
                       THEN Add(held, Near(parts, box, p)) ELSE held
            /\ UNCHANGED <<parts, box, cut, near, drag>>
Next == \E p \in Pairs : Visit(p)
Spec == Init /\ [][Next]_vars

Done == seen = Pairs
(* Switching the near field off leaves exactly the far field                *)
OffIsFar == ~near => held = Base
(* The near field is the same with either far field, and each pair's is     *)
(* there once                                                               *)
RECURSIVE SumOver(_, _)
SumOver(S, start) == IF S = {} THEN start
    ELSE LET p == CHOOSE x \in S : TRUE
         IN SumOver(S \ {p}, Add(start, Near(parts, box, p)))
PairByPair == (Done /\ near) =>
    held = SumOver({p \in Pairs : Close(box, cut, parts[p[1]], parts[p[2]])}, Base)
(* Moving a particle to another of its images changes nothing, and neither  *)
(* does shearing the box by a whole box length                              *)
Moved(p, n) == [p EXCEPT !.x = Shifted(box, @, n)]
Fresh == seen = {} /\ near /\ drag
SameForImages == (box.on /\ Fresh) => \A p \in Pairs : \A n \in {<<1, 0, 0>>, <<0, 0, 1>>, <<0, -1, 0>>} :
    /\ Close(box, cut, parts[p[1]], parts[p[2]])
         <=> Close(box, cut, Moved(parts[p[1]], n), parts[p[2]])
    /\ Close(box, cut, parts[p[1]], parts[p[2]])
         <=> Close([box EXCEPT !.tilt = @ + box.L[box.flow]], cut,
                   parts[p[1]], parts[p[2]])
(* There is no nearer image                                                 *)
Some == (-1..1) \X (-1..1) \X (-1..1)
NearestIsNearest == (box.on /\ Fresh) => \A p \in Pairs : \A m \in Some :
    LET d == Displacement(parts[p[1]], parts[p[2]])
        n == NearestOf(box, d)
    IN Apart(box, d, n) <= Apart(box, d, [k \in 1..3 |-> n[k] + m[k]])
(* A larger cutoff keeps the pairs of a smaller one                         *)
Monotone == Fresh => \A c \in Cuts : \A p \in Pairs :
    (c[1]*cut[2] <= cut[1]*c[2] /\ Close(box, c, parts[p[1]], parts[p[2]]))
        => Close(box, cut, parts[p[1]], parts[p[2]])
=============================================================================
