---------------------------- MODULE SDNearTrace ----------------------------
(* What is held for the same motion, measured with the real solver:         *)
(* "near": with (held) and without (base) the near field, and the part of   *)
(* every pair that might be close, measured for that pair alone ("n" is the *)
(* image at which the pair was measured).                                   *)
(* "same": the same quantities with switches that must not matter.          *)
(* "mute": a pair of beads with their interaction switched on and off, when *)
(* only one of them (the first) moves.                                      *)
EXTENDS SDNear, TLC, Json

VARIABLES i
Trace == ndJsonDeserialize("trace.ndjson")
Equal(x, y, t) == x - y <= t /\ y - x <= t
ClosePairs(e) == {p \in (DOMAIN e.parts) \X (DOMAIN e.parts) :
    p[1] < p[2] /\ Close(e.box, e.cut, e.parts[p[1]], e.parts[p[2]])}
Image(e, p) == NearestOf(e.box, Displacement(e.parts[p[1]], e.parts[p[2]]))
Measured(e, p) == {j \in DOMAIN e.pairs : e.pairs[j].p = p[1] /\ e.pairs[j].q = p[2]
                                           /\ e.pairs[j].n = Image(e, p)}
RECURSIVE Assemble(_, _, _)
Assemble(e, S, start) == IF S = {} THEN start
    ELSE LET p == CHOOSE x \in S : TRUE
             j == CHOOSE x \in Measured(e, p) : TRUE
         IN Assemble(e, S \ {p}, Add(start, e.pairs[j].part))
Verdict(e) ==
    IF ~e.ok THEN "solved"
    ELSE IF e.e = "near"
    THEN LET S == ClosePairs(e) IN
         IF \E p \in S : Measured(e, p) = {} THEN "pair was measured"
         ELSE LET w == Assemble(e, S, e.base)
                  bad == {j \in DOMAIN w : ~Equal(w[j], e.held[j], e.tol*(1 + Cardinality(S)))}
              IN IF bad = {} THEN ""
                 ELSE IF S = {} THEN "no close pair, no near field"
                 ELSE "near field is the sum over the close pairs"
    ELSE IF e.e = "same"
    THEN IF \E j \in DOMAIN e.one : ~Equal(e.one[j], e.two[j], e.tol) THEN e.name ELSE ""
    ELSE IF \E j \in DOMAIN e.on1 : ~Equal(e.on1[j], e.off1[j], e.tol)
    THEN "a bead's own resistance stays"
    ELSE IF \E j \in DOMAIN e.off2 : ~Equal(e.off2[j], 0, e.tol)
    THEN "beads do not push beads" ELSE ""

TraceInit == /\ i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "")
             /\ parts = 0 /\ box = 0 /\ cut = 0 /\ near = 0 /\ drag = 0
             /\ seen = 0 /\ held = 0
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(Trace[i])
       IN IF v = "" THEN i' = i + 1 /\ TLCSet(7, i + 1)
          ELSE TLCSet(8, v) /\ FALSE
    /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<i, vars>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
NoFar(p) == <<>>
NoNear(p, b, k) == <<>>
=============================================================================
