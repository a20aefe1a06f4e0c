---------------------------- MODULE SDFarTrace -----------------------------
(* Motions of one particle caused by loads on another (or on itself),       *)
(* measured with the real solver.  Beads of dumbbells carry only forces and *)
(* have only velocities.                                                    *)
EXTENDS SDFar, TLC, Json

VARIABLES i
Trace == ndJsonDeserialize("trace.ndjson")
Near(x, y, t) == x - y <= t /\ y - x <= t
Should(e) == IF e.own THEN Own(e.a, e.load) ELSE Response(e.r, e.a, e.b, e.load)
Verdict(e) ==
    IF ~e.ok THEN "solved"
    ELSE LET w == Should(e) IN
    IF \E j \in 1..3 : ~Near(e.U[j], Value(w.U[j]), e.tol)
    THEN "velocity in the far field"
    ELSE IF e.sphere /\ \E j \in 1..3 : ~Near(e.O[j], Value(w.O[j]), e.tol)
    THEN "rotation in the far field"
    ELSE IF e.sphere /\ \E j \in 1..5 : ~Near(e.E[j], Value(w.E[j]), e.tol)
    THEN "strain in the far field"
    ELSE ""

TraceInit == /\ i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "")
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(Trace[i])
       IN IF v = "" THEN i' = i + 1 /\ TLCSet(7, i + 1)
          ELSE TLCSet(8, v) /\ FALSE
TraceSpec == TraceInit /\ [][TraceNext]_i
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
=============================================================================
