------------------------------ MODULE MCStart ------------------------------
EXTENDS SDStart, TLC, Json
Base(ns, nd, form, u, v) ==
    LET third == IF form = "fts" THEN "S" ELSE "E"
    IN [ns |-> ns, nd |-> nd, form |-> form, setup |-> TRUE, input |-> TRUE,
        scheme |-> "euler", sizes |-> [k \in 1..(ns + nd) |-> IF k % 2 = 1 THEN 10 ELSE 100],
        given |-> {<<"U", k>> : k \in 1..u} \cup {<<"F", k>> : k \in (u+1)..ns}
           \cup {<<f, k>> : f \in {"T", third}, k \in 1..ns}
           \cup {<<f, k>> : f \in {"Ub", "Hb"}, k \in 1..v}
           \cup {<<f, k>> : f \in {"Fb", "Db"}, k \in (v+1)..nd}]
Shapes == {s \in (0..2) \X (0..2) : s[1] + s[2] > 0}
MostU(form, n) == IF form \in {"ufte", "ufteu"} THEN n ELSE 0
MostV(form, n) == IF form \in {"ufteu", "duf"} THEN n ELSE 0
Bases == UNION {UNION {{Base(s[1], s[2], f, u, v) :
                        u \in 0..MostU(f, s[1]), v \in 0..MostV(f, s[2])}
                       : f \in Forms \cup {"none"}} : s \in Shapes}
(* One thing wrong                                                          *)
Faulty(c) == {c, [c EXCEPT !.setup = FALSE], [c EXCEPT !.input = FALSE],
              [c EXCEPT !.scheme = "none"], [c EXCEPT !.scheme = "rk4"],
              [c EXCEPT !.scheme = "ab2"]}
    \cup {[c EXCEPT !.given = @ \ {x}] : x \in c.given}
    \cup {[c EXCEPT !.sizes[k] = s] : k \in DOMAIN c.sizes, s \in {50, 1}}
MCConfs == UNION {Faulty(c) : c \in Bases}
Len1(x) == << <<x, 0, 0>> >>
MCPaths == {<<Len1(2000), Len1(4000), Len1(6000), Len1(3000)>>,
            << <<<<0, 3000, 0>>, <<0, 0, 1>>>>, <<<<0, 3000, 4000>>, <<0, 0, 1>>>>,
               <<<<0, 3000, 0>>, <<3000, 0, 4001>>>> >>,
            <<Len1(5001), Len1(2000)>>}
=============================================================================
