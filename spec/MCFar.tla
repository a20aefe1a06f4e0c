------------------------------- MODULE MCFar -------------------------------
(* The far field is reciprocal (exactly, as fractions), and turns with the  *)
(* frame about the line of centres; loading a particle twice adds up.       *)
EXTENDS SDFar, TLC
CONSTANTS Radii, Separations

None == [F |-> <<0, 0, 0>>, T |-> <<0, 0, 0>>, S |-> <<0, 0, 0, 0, 0>>]
Kinds == {<<"F", j>> : j \in 1..3} \union {<<"T", j>> : j \in 1..3}
           \union {<<"S", j>> : j \in 1..5}
Unit(k) == [None EXCEPT ![k[1]][k[2]] = 1]
(* Sums of terms over the common denominator 30 r^5                         *)
RECURSIVE Exact(_, _, _)
Exact(terms, r, n) == IF n = 0 THEN 0
    ELSE terms[n][1][1]*terms[n][2]*((30*Pow(r, 5)) \div terms[n][1][2])
         + Exact(terms, r, n - 1)
Num(terms, r) == Exact(terms, r, Len(terms))
(* Twice the work of loads g on the response v                              *)
Work(v, g, r) ==
    2*(Num(v.U[1], r)*g.F[1] + Num(v.U[2], r)*g.F[2] + Num(v.U[3], r)*g.F[3]
       + Num(v.O[1], r)*g.T[1] + Num(v.O[2], r)*g.T[2] + Num(v.O[3], r)*g.T[3])
    + 3*Num(v.E[1], r)*g.S[1] + 4*(Num(v.E[2], r)*g.S[2] + Num(v.E[3], r)*g.S[3]
       + Num(v.E[4], r)*g.S[4] + Num(v.E[5], r)*g.S[5])
(* The same loads seen from the other particle: turned half round about f   *)
SwapV(v) == <<-v[1], v[2], -v[3]>>
SwapT(e) == <<e[1], -e[2], e[3], -e[4], e[5]>>
Swap(l) == [F |-> SwapV(l.F), T |-> SwapV(l.T), S |-> SwapT(l.S)]
TurnV(v) == <<v[1], -v[3], v[2]>>
TurnT(e) == <<e[1], -e[3], e[2], -e[4], -e[5]>>
Turn(l) == [F |-> TurnV(l.F), T |-> TurnV(l.T), S |-> TurnT(l.S)]
Nums(v, r) == [F |-> [j \in 1..3 |-> Num(v.U[j], r)],
               T |-> [j \in 1..3 |-> Num(v.O[j], r)],
               S |-> [j \in 1..5 |-> Num(v.E[j], r)]]

VARIABLES r, a, b, l, g
vars == <<r, a, b, l, g>>
Init == /\ r \in Separations /\ a \in Radii /\ b \in Radii /\ r > a + b
        /\ l = None /\ g = None
Load == l = None /\ \E k \in Kinds : l' = Unit(k)
        /\ UNCHANGED <<r, a, b, g>>
Test == l # None /\ g = None /\ \E k \in Kinds : g' = Unit(k)
        /\ UNCHANGED <<r, a, b, l>>
Next == Load \/ Test
Spec == Init /\ [][Next]_vars
Reciprocal == Work(Response(r, a, b, l), g, r)
                = Work(Response(r, b, a, Swap(g)), Swap(l), r)
Turns == Nums(Response(r, a, b, Turn(l)), r) = Turn(Nums(Response(r, a, b, l), r))
(* The six digits agree with the exact fraction                             *)
DigitsRight == \A j \in 1..3 :
    LET x == Response(r, a, b, l).U[j]
        n == IF Num(x, r) < 0 THEN -Num(x, r) ELSE Num(x, r)
        v == IF Num(x, r) < 0 THEN -Value(x) ELSE Value(x)
    IN (v \div 1000) - ((n*1000) \div (30*Pow(r, 5))) \in -1..1
=============================================================================
