---------------------------- MODULE SDWallTrace ----------------------------
(* Sessions with the real solver and the real script.  Every event holds    *)
(* the forces on the held spheres (f), the reported share (w, empty when    *)
(* not asked for), all other numbers of the answer (rest), and how what was *)
(* given differs from the event before it.                                  *)
EXTENDS SDWall, TLC, Json

VARIABLES i, before
Trace == ndJsonDeserialize("trace.ndjson")
Zero(w) == [k \in DOMAIN w |-> 0]
Within(a, b, t) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : Near(a[k], b[k], t)
Law(b, e) ==
    IF e.asked /\ DOMAIN e.w # DOMAIN e.f THEN "a share for every held sphere"
    ELSE IF e.op = "base" THEN ""
    ELSE IF e.op = "ask"
    THEN IF Within(b.f, e.f, e.tol) /\ Within(b.rest, e.rest, e.tol) THEN ""
         ELSE "asking changes nothing"
    ELSE IF e.op = "quiet"
    THEN IF b.asked /\ ~Within(b.w, [k \in DOMAIN b.f |-> b.f[k] - e.f[k]], e.tol)
         THEN "the share is the difference dumbbells make"
         ELSE IF e.asked /\ ~Within(e.w, Zero(e.f), e.tol) THEN "no force, no share" ELSE ""
    ELSE IF ~(b.asked /\ e.asked) THEN ""
    ELSE IF e.op = "other"
    THEN IF Within(b.w, e.w, e.tol) THEN "" ELSE "the share of dumbbells only"
    ELSE IF e.op = "scale"
    THEN IF Within([k \in DOMAIN b.w |-> e.by*b.w[k]], e.w, e.tol*4) THEN ""
         ELSE "the share is linear"
    ELSE IF e.op = "alone"
    THEN IF Within(e.w, e.f, e.tol) /\ Within(b.w, e.w, e.tol) THEN ""
         ELSE "with nothing else given the share is everything"
    ELSE "unknown"
Verdict(b, e) == IF ~e.ok THEN "solved" ELSE Law(b, e)

TraceInit == /\ i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "") /\ before = [op |-> "none"]
             /\ m = 0 /\ x = 0 /\ asked = 0 /\ forces = 0 /\ share = 0 /\ last = 0
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(before, Trace[i])
       IN IF v = "" THEN i' = i + 1 /\ TLCSet(7, i + 1) /\ before' = Trace[i]
          ELSE TLCSet(8, v) /\ FALSE
    /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<i, before, vars>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
NoSet == {}
=============================================================================
