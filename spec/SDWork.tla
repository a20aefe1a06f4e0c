------------------------------- MODULE SDWork ------------------------------
(* Work and reciprocity.                                                    *)
(*                                                                          *)
(* The resistance of a suspension is assembled from self resistances (the   *)
(* drag of each particle) and pairwise ones (far field, lubrication), in    *)
(* any order.  Whatever has been assembled, the loads that hold a motion    *)
(* against it do positive work, and the work of the loads of one motion on  *)
(* another motion does not depend on which is which.                        *)
EXTENDS Integers, Sequences

RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
Sum(s) == SumTo(s, Len(s))
Gap(a, b) == IF a > b THEN a - b ELSE b - a

(* The two laws, for term-by-term works of load f on motion g, and so on.   *)
Reciprocal(fg, gf, tol) == Gap(Sum(fg), Sum(gf)) <= tol
Dissipates(ff) == Sum(ff) > 0

CONSTANTS Parts, Speeds, MaxPieces     \* Parts = 1..n
VARIABLES drag, link, pieces, first, second
vars == <<drag, link, pieces, first, second>>
Pairs == {p \in Parts \X Parts : p[1] < p[2]}
Motions == [Parts -> Speeds]
Still == [p \in Parts |-> 0]

Pull(u, p, q) ==
    LET k == IF p < q THEN <<p, q>> ELSE <<q, p>> IN link[k]*(u[p] - u[q])
Load(u) == [p \in Parts |->
    LET others[S \in SUBSET Parts] ==
            IF S = {} THEN 0
            ELSE LET q == CHOOSE x \in S : TRUE
                 IN (IF q = p THEN 0 ELSE Pull(u, p, q)) + others[S \ {q}]
    IN drag[p]*u[p] + others[Parts]]
Work(f, u) == [p \in Parts |-> f[p]*u[p]]

Init == /\ drag = [p \in Parts |-> 1] /\ link = [p \in Pairs |-> 0]
        /\ pieces = 0 /\ first = Still /\ second = Still
Thicken(p) == /\ pieces < MaxPieces /\ drag' = [drag EXCEPT ![p] = @ + 1]
              /\ pieces' = pieces + 1 /\ UNCHANGED <<link, first, second>>
Connect(p) == /\ pieces < MaxPieces /\ link' = [link EXCEPT ![p] = @ + 1]
              /\ pieces' = pieces + 1 /\ UNCHANGED <<drag, first, second>>
Move(u, v) == /\ first = Still /\ second = Still
              /\ first' = u /\ second' = v /\ UNCHANGED <<drag, link, pieces>>
Next == \/ \E p \in Parts : Thicken(p)
        \/ \E p \in Pairs : Connect(p)
        \/ \E u, v \in Motions : Move(u, v)
Spec == Init /\ [][Next]_vars

AlwaysReciprocal ==
    Reciprocal(Work(Load(first), second), Work(Load(second), first), 0)
AlwaysDissipates == first /= Still => Dissipates(Work(Load(first), first))
=============================================================================
