---------------------------- MODULE SDPairTrace ----------------------------
(* Resistances of one and two spheres, measured with the real solver.       *)
(* "alone": a lone sphere, everything in units of its Stokes resistances.   *)
(* "pair": what is held for a motion, with the scalars of the table.        *)
(* "between": the same with the near field switched on and off, at          *)
(* separations which divide the interval between two entries of the table   *)
(* in a : b; the scalars are the corrections at the two entries.  A bead of *)
(* a dumbbell ("kinds") only ever moves and feels forces.                   *)
EXTENDS SDPair, TLC, Json

VARIABLES i
Trace == ndJsonDeserialize("trace.ndjson")
Near(a, b, t) == a - b <= t /\ b - a <= t

Pick(h, w) == IF w = "F" THEN h.F ELSE IF w = "T" THEN h.T ELSE h.S3
Name(w, j) ==
    IF w = "F" THEN IF j = 1 THEN "force along the line of centres"
                    ELSE "force across the line of centres"
    ELSE IF w = "T" THEN IF j = 1 THEN "torque about the line of centres"
                    ELSE "torque across the line of centres"
    ELSE IF j = 1 THEN "stresslet along the line of centres"
    ELSE IF j <= 3 THEN "stresslet across the line of centres"
    ELSE "stresslet around the line of centres"

(* What is expected, times a + b                                            *)
Expected(e, p, w, j) ==
    IF e.e = "pair" THEN Pick(Held(e.c, e.m, p), w)[j]
    ELSE (e.a + e.b)*Pick(e.far[p], w)[j]
         + e.b*Pick(Held(e.c, e.m, p), w)[j] + e.a*Pick(Held(e.d, e.m, p), w)[j]
Parts(e) == IF e.e = "pair" THEN 1 ELSE e.a + e.b

Wrong(e) == {<<p, w, j>> \in (1..2) \X {"F", "T", "S"} \X (1..5) :
    /\ j <= (IF w = "S" THEN 5 ELSE 3)
    /\ e.kinds[p] = "sphere" \/ w = "F"
    /\ ~Near(Parts(e)*Pick(e.got[p], w)[j], Expected(e, p, w, j),
             Parts(e)*e.tol[p][w]*(IF w = "S" THEN 3 ELSE 1))}

Verdict(e) ==
    IF ~e.ok THEN "solved"
    ELSE IF e.e = "alone"
    THEN IF \E j \in 1..3 : ~Near(e.F[j], e.m.U[j]*e.unit, e.tol)
         THEN "drag of a lone sphere"
         ELSE IF \E j \in 1..3 : ~Near(e.T[j], e.m.O[j]*e.unit, e.tol)
         THEN "torque on a lone sphere"
         ELSE IF \E j \in 1..5 : ~Near(e.S[j], e.m.E[j]*e.unit, e.tol)
         THEN "stresslet of a lone sphere" ELSE ""
    ELSE IF Wrong(e) = {} THEN ""
         ELSE LET x == CHOOSE x \in Wrong(e) : TRUE IN Name(x[2], x[3])

TraceInit == /\ i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "")
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(Trace[i])
       IN IF v = "" THEN i' = i + 1 /\ TLCSet(7, i + 1)
          ELSE TLCSet(8, v) /\ FALSE
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
=============================================================================
