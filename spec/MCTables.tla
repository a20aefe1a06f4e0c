------------------------------ MODULE MCTables -----------------------------
EXTENDS SDTables
Lists(S, n) == UNION {{s \in [1..k -> S] : \A i, j \in 1..k : i # j => s[i] # s[j]} : k \in 1..n}
MCNear == Lists({1, 2, 4}, 2)
MCMid == Lists({3, 4, 5}, 2)
MCRatios == {<< <<1, 1>> >>, << <<1, 2>> >>, << <<1, 2>>, <<1, 1>> >>, << <<1, 1>>, <<1, 2>> >>}
MCNearOf(s, p) == << 100*s + 10*p[1] + p[2], 7 >>
MCMidOf(s, p) == << 5000 + 100*s + 10*p[1] + p[2], 8 >>
MCFarOf(s, p) == << s + 3*p[1], 2*s + p[2] >>
OnceSpec == Init /\ [][DoCombine \/ DoSubtract \/ DoDrag(1)]_vars
MCLong == Lists({1, 2, 4}, 3)
MCLongMid == Lists({3, 4, 5, 6}, 3)
FewNear == {<<1>>, <<4, 1>>}
FewMid == {<<3, 4>>, <<5, 3>>}
FewRatios == {<< <<1, 1>> >>, << <<1, 1>>, <<1, 2>> >>}
=============================================================================
