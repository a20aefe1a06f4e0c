--------------------------- MODULE SDSwitchTrace ---------------------------
(* The entries of one configuration, measured with the real solver under    *)
(* every combination of switches.  An event holds the combination (s), the  *)
(* kinds and radii, and for every ordered pair, row by row, the numbers of  *)
(* its entry.  "reference" events come first and give the entries with the  *)
(* switches as supplied; "repeat" events differ from it only in how far the *)
(* box is repeated.                                                         *)
EXTENDS SDSwitch, TLC, Json

VARIABLES i, ref
Trace == ndJsonDeserialize("trace.ndjson")
Equal(x, y, t) == x - y <= t /\ y - x <= t
Width(kind) == IF kind = "bead" THEN 3 ELSE 11
(* A particle's own entry in a fluid without anything else                  *)
Alone(e, p) ==
    LET w == Width(e.kinds[p]) IN
    [j \in 1..(w*w) |->
       LET r == 1 + ((j - 1) \div w)
           c == 1 + ((j - 1) % w)
       IN IF r # c THEN 0
          ELSE IF r <= 3 THEN Six(4, 3*e.radii[p])
          ELSE IF r <= 6 THEN Six(1, Pow(e.radii[p], 3))
          ELSE Six(6, 5*Pow(e.radii[p], 3))]
Should(e, p, q) ==
    LET what == IF e.e = "far" THEN FarEntry(e.s, e.kinds, p, q)
                ELSE NearEntry(e.s, e.kinds, p, q)
    IN IF what = "none" THEN [j \in DOMAIN e.entries[p][q] |-> 0]
       ELSE IF what = "stokes" THEN Alone(e, p)
       ELSE ref[e.e][p][q]
Wrong(e) == {p \in (DOMAIN e.kinds) \X (DOMAIN e.kinds) :
    LET w == Should(e, p[1], p[2])
        g == e.entries[p[1]][p[2]]
    IN \E j \in DOMAIN g : ~Equal(g[j], w[j], e.tol)}
Verdict(e) ==
    IF ~e.ok THEN "solved"
    ELSE IF e.reference THEN ""
    ELSE IF Wrong(e) = {} THEN ""
    ELSE LET p == CHOOSE x \in Wrong(e) : TRUE IN
         e.e \o " entry: " \o (IF e.e = "far" THEN FarEntry(e.s, e.kinds, p[1], p[2])
                               ELSE NearEntry(e.s, e.kinds, p[1], p[2]))

TraceInit == /\ i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "")
             /\ ref = [far |-> <<>>, near |-> <<>>]
             /\ kinds = 0 /\ s = 0 /\ before = 0
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET e == Trace[i]
           v == Verdict(e)
       IN IF v = "" THEN /\ i' = i + 1 /\ TLCSet(7, i + 1)
                         /\ ref' = IF e.reference THEN [ref EXCEPT ![e.e] = e.entries]
                                   ELSE ref
          ELSE TLCSet(8, v) /\ FALSE
    /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<i, ref, vars>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
=============================================================================
