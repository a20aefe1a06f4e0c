---------------------------- MODULE SDWorkTrace ----------------------------
(* Works measured with the real solver.  Every event compares two load      *)
(* sets f, g on the same particles: fg is the work of each component of     *)
(* the loads f on the motion that the loads g cause, and so on.             *)
EXTENDS SDWork, TLC, Json

VARIABLES i
Trace == ndJsonDeserialize("trace.ndjson")

Verdict(e) ==
    IF ~e.ok THEN "solved"
    ELSE IF ~Reciprocal(e.fg, e.gf, e.tol) THEN "reciprocal"
    ELSE IF ~Dissipates(e.ff) \/ ~Dissipates(e.gg) THEN "loads do positive work"
    ELSE ""

TraceInit == /\ i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "") /\ Init
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(Trace[i])
       IN IF v = "" THEN i' = i + 1 /\ TLCSet(7, i + 1)
          ELSE TLCSet(8, v) /\ FALSE
    /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<i, vars>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
=============================================================================
