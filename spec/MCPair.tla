------------------------------- MODULE MCPair ------------------------------
(* The response of two spheres is reciprocal, turns with the frame about    *)
(* the line of centres, is the same in a mirror, and does not depend on     *)
(* which sphere is called the first.                                        *)
EXTENDS SDPair, TLC

Zero == [U |-> <<0, 0, 0>>, O |-> <<0, 0, 0>>, E |-> <<0, 0, 0, 0, 0>>]
Kinds == {<<"U", j>> : j \in 1..3} \union {<<"O", j>> : j \in 1..3}
           \union {<<"E", j>> : j \in 1..5}
Unit(i, k) == [j \in 1..2 |-> IF j # i THEN Zero
                              ELSE [Zero EXCEPT ![k[1]][k[2]] = 1]]
Plus(m, n) == [j \in 1..2 |->
    [U |-> [d \in 1..3 |-> m[j].U[d] + n[j].U[d]],
     O |-> [d \in 1..3 |-> m[j].O[d] + n[j].O[d]],
     E |-> [d \in 1..5 |-> m[j].E[d] + n[j].E[d]]]]

(* Scalars which respect reciprocity between the two views                  *)
Scalars(i) ==
    [A |-> [x1 |-> 3 + i, x2 |-> -2, y1 |-> 7 - i, y2 |-> -3],
     B |-> [y1 |-> -i, y2 |-> 2 + i],
     C |-> [x1 |-> 5 + i, x2 |-> 1, y1 |-> 8 + i, y2 |-> 2],
     G |-> [x1 |-> 3*i, x2 |-> -1 - i, y1 |-> 2*i, y2 |-> i],
     H |-> [y1 |-> 4 - i, y2 |-> 5 + 2*i],
     M |-> [x1 |-> 10 + i, x2 |-> 4, y1 |-> 11 + i, y2 |-> -5,
            z1 |-> 12 + i, z2 |-> 6]]
Pair == <<Scalars(1), Scalars(2)>>
Swapped == <<Scalars(2), Scalars(1)>>
Answer(t, m) == [i \in 1..2 |-> Held(Coefficients(t), m, i)]

(* Six times the work of what is held on another motion                     *)
WorkOn(h, n) == LET W(i) == 6*(h[i].F[1]*n[i].U[1] + h[i].F[2]*n[i].U[2]
                               + h[i].F[3]*n[i].U[3] + h[i].T[1]*n[i].O[1]
                               + h[i].T[2]*n[i].O[2] + h[i].T[3]*n[i].O[3])
                            + 3*h[i].S3[1]*n[i].E[1] + 4*(h[i].S3[2]*n[i].E[2]
                               + h[i].S3[3]*n[i].E[3] + h[i].S3[4]*n[i].E[4]
                               + h[i].S3[5]*n[i].E[5])
                IN W(1) + W(2)

TurnV(v) == <<v[1], -v[3], v[2]>>
TurnT(e) == <<e[1], -e[3], e[2], -e[4], -e[5]>>
MirrorV(v) == <<v[1], v[2], -v[3]>>
MirrorP(v) == <<-v[1], -v[2], v[3]>>
MirrorT(e) == <<e[1], e[2], -e[3], -e[4], e[5]>>
SwapV(v) == <<-v[1], v[2], -v[3]>>
SwapT(e) == <<e[1], -e[2], e[3], -e[4], e[5]>>
Moved(m, V(_), P(_), T(_)) ==
    [i \in 1..2 |-> [U |-> V(m[i].U), O |-> P(m[i].O), E |-> T(m[i].E)]]
MovedH(h, V(_), P(_), T(_)) ==
    [i \in 1..2 |-> [F |-> V(h[i].F), T |-> P(h[i].T), S3 |-> T(h[i].S3)]]
Exchange(x) == <<x[2], x[1]>>

VARIABLES m, n
Motions == {Plus(Unit(i, k), Unit(j, l)) : i \in 1..2, j \in 1..2, k \in Kinds, l \in Kinds}
Init == m = <<Zero, Zero>> /\ n = <<Zero, Zero>>
Next == \/ m = <<Zero, Zero>> /\ m' \in Motions /\ UNCHANGED n
        \/ m # <<Zero, Zero>> /\ n = <<Zero, Zero>> /\ UNCHANGED m
           /\ \E i \in 1..2, k \in Kinds : n' = Unit(i, k)
Spec == Init /\ [][Next]_<<m, n>>

Reciprocal == WorkOn(Answer(Pair, m), n) = WorkOn(Answer(Pair, n), m)
Turns == Answer(Pair, Moved(m, TurnV, TurnV, TurnT))
           = MovedH(Answer(Pair, m), TurnV, TurnV, TurnT)
Mirrored == Answer(Pair, Moved(m, MirrorV, MirrorP, MirrorT))
              = MovedH(Answer(Pair, m), MirrorV, MirrorP, MirrorT)
Exchanged == Answer(Swapped, Exchange(Moved(m, SwapV, SwapV, SwapT)))
               = Exchange(MovedH(Answer(Pair, m), SwapV, SwapV, SwapT))
=============================================================================
