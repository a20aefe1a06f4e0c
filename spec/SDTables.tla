------------------------------ MODULE SDTables -----------------------------
(* The tables of resistance scalars, and the scripts which make them.       *)
(*                                                                          *)
(* A folder holds the list of size ratios (only those up to 1), the lists   *)
(* of near and middle separations, and tables.  A table has one line of     *)
(* separations, one of size ratios, and an entry for every pair of them.    *)
(* Every listed ratio stands for its inverse too; both are in the tables,   *)
(* in order of size.  Ratios are written <<numerator, denominator>>.        *)
(*                                                                          *)
(* combine   puts the near and middle tables together, in order of          *)
(*           separation                                                     *)
(* subtract  takes away from the combined table what the far field gives    *)
(* drag      takes away what isolated spheres give                          *)
(*                                                                          *)
(* A script reads what other scripts have left in the folder and changes    *)
(* nothing but its own results.                                             *)
EXTENDS Integers, Sequences, FiniteSets

Less(p, q) == p[1]*q[2] < q[1]*p[2]
Inverse(p) == <<p[2], p[1]>>

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>>
             ELSE LET p == CHOOSE p \in S : \A q \in S : q = p \/ Less(p, q)
                  IN <<p>> \o Sorted(S \ {p})
Range(s) == {s[j] : j \in DOMAIN s}
WithInverses(rats) == Sorted(Range(rats) \cup {Inverse(p) : p \in Range(rats)})

(* The place of the k-th in order; those alike stay in their order          *)
Before(s, i, j) == s[i] < s[j] \/ (s[i] = s[j] /\ i < j)
Rank(s, i) == 1 + Cardinality({j \in DOMAIN s : Before(s, j, i)})
Order(s) == [k \in DOMAIN s |-> CHOOSE i \in DOMAIN s : Rank(s, i) = k]
Arranged(s, order) == [k \in DOMAIN s |-> s[order[k]]]

Combined(near, mid) ==
    LET seps == near.seps \o mid.seps
        order == Order(seps)
    IN [seps |-> Arranged(seps, order),
        rats |-> near.rats,
        val  |-> Arranged(near.val \o mid.val, order)]

(* far.val has the lines of the combined table                              *)
Less1(v, w) == [k \in DOMAIN v |-> v[k] - w[k]]
Without(t, far) == [t EXCEPT !.val =
    [i \in DOMAIN t.val |-> [j \in DOMAIN t.val[i] |->
        Less1(t.val[i][j], far[i][j])]]]
(* What an isolated sphere gives: its own resistance to its own motion      *)
Entries == << "XA", "YA", "YB", "XC", "YC", "XG", "YG", "YH", "XM", "YM", "ZM" >>
Plain == {"XA", "YA", "XC", "YC", "XM", "YM", "ZM"}
Alone(unit, k) == IF k <= 11 /\ Entries[k] \in Plain THEN unit ELSE 0

(* Entries by what they are for                                             *)
Place(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
At(t, s, p) == t.val[Place(t.seps, s)][Place(t.rats, p)]

(* --- Laws of the tables ------------------------------------------------- *)
Abs(x) == IF x < 0 THEN -x ELSE x
Ascending(s) == \A i \in 1..(Len(s)-1) : s[i] < s[i+1]
(* What one sphere's load owes to the other's motion is, of the same kind,  *)
(* what the other's owes to its own: both seen from the first               *)
Reciprocal(a, b, tol) == Abs(a - b) <= tol
(* A resistance seen from either branch at the first middle separation      *)
Joins(c, m, tol) == Abs(c - m) <= tol + Abs(m) \div 500
DiesAway(d3, d4, small, tol) == Abs(d4) <= small /\ Abs(d4) <= Abs(d3) + tol

(* --- A session of scripts ------------------------------------------------ *)
CONSTANTS NearLists, MidLists, RatioLists, NearOf(_, _), MidOf(_, _), FarOf(_, _)
VARIABLES near, mid, general, corrected, dragged
vars == <<near, mid, general, corrected, dragged>>

None == [seps |-> <<>>, rats |-> <<>>, val |-> <<>>]
Made(seps, rats, f(_, _)) ==
    [seps |-> seps, rats |-> rats,
     val |-> [i \in DOMAIN seps |-> [j \in DOMAIN rats |-> f(seps[i], rats[j])]]]
Init == /\ \E ns \in NearLists, ms \in MidLists, rs \in RatioLists :
              /\ near = Made(ns, WithInverses(rs), NearOf)
              /\ mid = Made(ms, WithInverses(rs), MidOf)
        /\ general = None /\ corrected = None /\ dragged = None
DoCombine == /\ general' = Combined(near, mid)
             /\ UNCHANGED <<near, mid, corrected, dragged>>
DoSubtract == /\ general # None /\ general.rats = near.rats
              /\ corrected' = Without(general,
                    Made(general.seps, general.rats, FarOf).val)
              /\ UNCHANGED <<near, mid, general, dragged>>
DoDrag(unit) == /\ general # None /\ general.rats = near.rats
                /\ dragged' = [general EXCEPT !.val =
                      [i \in DOMAIN general.val |-> [j \in DOMAIN general.val[i] |->
                          [k \in DOMAIN general.val[i][j] |->
                              general.val[i][j][k] - Alone(unit, k)]]]]
                /\ UNCHANGED <<near, mid, general, corrected>>
(* New lists, and tables made for them                                      *)
Renew == /\ \E ns \in NearLists, ms \in MidLists, rs \in RatioLists :
              /\ near' = Made(ns, WithInverses(rs), NearOf)
              /\ mid' = Made(ms, WithInverses(rs), MidOf)
         /\ UNCHANGED <<general, corrected, dragged>>
Next == DoCombine \/ DoSubtract \/ DoDrag(1) \/ Renew
Spec == Init /\ [][Next]_vars

(* --- What follows -------------------------------------------------------- *)
InOrder == \A t \in {general, corrected, dragged} :
    /\ \A i \in 1..(Len(t.seps)-1) : t.seps[i] <= t.seps[i+1]
    /\ \A j \in 1..(Len(t.rats)-1) : Less(t.rats[j], t.rats[j+1])
BothViews == \A t \in {general, corrected, dragged} :
    \A p \in Range(t.rats) : Inverse(p) \in Range(t.rats)
(* Every entry is that of its separation and ratio, wherever it was listed  *)
RightEntries ==
    /\ \A i \in DOMAIN general.seps, j \in DOMAIN general.rats :
          general.val[i][j] \in {NearOf(general.seps[i], general.rats[j]),
                                 MidOf(general.seps[i], general.rats[j])}
    /\ \A i \in DOMAIN corrected.seps, j \in DOMAIN corrected.rats :
          LET s == corrected.seps[i]  p == corrected.rats[j]
          IN corrected.val[i][j] \in {Less1(NearOf(s, p), FarOf(s, p)),
                                      Less1(MidOf(s, p), FarOf(s, p))}
Complete == [][general' # general =>
    /\ Len(general'.seps) = Len(near.seps) + Len(mid.seps)
    /\ \A i \in DOMAIN near.seps, p \in Range(near.rats) :
          \E k \in DOMAIN general'.seps :
             /\ general'.seps[k] = near.seps[i]
             /\ general'.val[k][Place(general'.rats, p)] = At(near, near.seps[i], p)
    /\ \A i \in DOMAIN mid.seps, p \in Range(mid.rats) :
          \E k \in DOMAIN general'.seps :
             /\ general'.seps[k] = mid.seps[i]
             /\ general'.val[k][Place(general'.rats, p)] = At(mid, mid.seps[i], p)]_vars
(* Running a script again changes nothing                                   *)
Again == general # None => LET g == Combined(near, mid)
                           IN g = Combined(near, mid) /\ Combined(g, None) = g
=============================================================================
