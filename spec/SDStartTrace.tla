---------------------------- MODULE SDStartTrace ---------------------------
(* Runs of the real script.  "asked": a request and how it ended.  "burst": *)
(* the dumbbells of every frame of a run (got) and of the same run without  *)
(* protection (path), in thousandths.                                       *)
EXTENDS SDStart, TLC, Json

VARIABLES i
Trace == ndJsonDeserialize("trace.ndjson")
Conf(e) == [e.conf EXCEPT !.given = {<<x[1], x[2]>> : x \in {@[k] : k \in DOMAIN @}}]
Verdict(e) ==
    IF e.e = "asked"
    THEN IF Refused(Conf(e))
         THEN IF e.ended # "error" THEN "impossible runs are refused"
              ELSE IF e.files + e.temps > 0 THEN "refused runs write nothing"
              ELSE ""
         ELSE IF e.ended # "done" THEN "possible runs are made"
              ELSE IF e.files # 1 THEN "runs write one output" ELSE ""
    ELSE IF e.ended # "done" THEN "exploding runs end cleanly"
         ELSE IF Len(e.got) # Saved(e.protect, e.path)
         THEN IF e.protect THEN "protected runs stop when a dumbbell is too long"
              ELSE "unprotected runs carry on"
         ELSE IF \E f \in DOMAIN e.got : e.got[f] # e.path[f]
         THEN "everything up to then is saved"
         ELSE IF e.forces # Steps(e.protect, e.path) THEN "forces up to then are saved"
         ELSE ""

TraceInit == /\ i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "")
             /\ conf = 0 /\ path = 0 /\ protect = 0 /\ phase = 0 /\ at = 0 /\ files = 0
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(Trace[i])
       IN IF v = "" THEN i' = i + 1 /\ TLCSet(7, i + 1)
          ELSE TLCSet(8, v) /\ FALSE
    /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<i, vars>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
=============================================================================
