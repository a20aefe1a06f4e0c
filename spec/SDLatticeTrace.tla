-------------------------- MODULE SDLatticeTrace ---------------------------
(* The real solver's answers for successive descriptions of one array.      *)
(* "base" starts with a new array; "known" events are single spheres in     *)
(* cubic boxes.  Descriptions are in whole hundredths of a length.          *)
EXTENDS SDLattice, TLC, Json

VARIABLES i, ans0
Trace == ndJsonDeserialize("trace.ndjson")
Equal(x, y, t) == x - y <= t /\ y - x <= t
Differ(x, y, t) == \E j \in DOMAIN x : ~Equal(x[j], y[j], t)
Next1(e) == IF e.op = "base" THEN e.d ELSE Changed(e, d)
Src1(e) == IF e.op = "base" THEN [sp |-> Count(Len(e.d.sp)), db |-> Count(Len(e.d.db))]
           ELSE Source(e, src)
Verdict(e) ==
    IF ~e.ok THEN "solved"
    ELSE IF e.op = "known"
    THEN IF ~Equal(e.pulled, Pulled(e.n), e.tol) THEN "a sphere pulled in a cubic array"
         ELSE IF ~Equal(e.turned, Turned(e.n), e.tol) THEN "a sphere turned in a cubic array"
         ELSE ""
    ELSE IF e.op = "base" THEN ""
    ELSE IF e.d # Changed(e, d) THEN "played as specified"
    ELSE LET s == Src1(e) IN
         IF Len(e.sp) # Len(s.sp) \/ Len(e.db) # Len(s.db) THEN "every particle has an answer"
         ELSE IF \E k \in DOMAIN s.sp : Differ(e.sp[k], ans0.sp[s.sp[k]], e.tol)
         THEN "spheres do not depend on the description (" \o e.op \o ")"
         ELSE IF \E k \in DOMAIN s.db : Differ(e.db[k], ans0.db[s.db[k]], e.tol)
         THEN "dumbbells do not depend on the description (" \o e.op \o ")"
         ELSE ""

TraceInit == /\ i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "")
             /\ d = 0 /\ d0 = 0 /\ hist = 0 /\ src = 0 /\ ans0 = 0
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET e == Trace[i]
           v == Verdict(e)
       IN IF v # "" THEN TLCSet(8, v) /\ FALSE
          ELSE /\ i' = i + 1 /\ TLCSet(7, i + 1)
               /\ IF e.op = "known" THEN UNCHANGED <<d, src, ans0>>
                  ELSE /\ d' = Next1(e) /\ src' = Src1(e)
                       /\ ans0' = IF e.op = "base" THEN [sp |-> e.sp, db |-> e.db] ELSE ans0
    /\ UNCHANGED <<d0, hist>>
TraceSpec == TraceInit /\ [][TraceNext]_<<i, ans0, vars>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
=============================================================================
