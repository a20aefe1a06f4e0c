--------------------------- MODULE SDProgressTrace -------------------------
(* Reports of real processes with a clock of ours.  Events: start (with the *)
(* settings of the run and the frame it goes on from), frame, total.        *)
EXTENDS SDProgress, Json

VARIABLES i, u
Trace == ndJsonDeserialize("trace.ndjson")
Whole(t) == [num |-> t, den |-> 1]
RECURSIVE Total(_)
Total(d) == IF d = <<>> THEN 0 ELSE Head(d) + Total(Tail(d))
FrameVerdict(e) ==
    LET d == Append(took, e.took)
        q == Estimate(d, n, inv, from, jit)
        mark == Mark(d, n, inv, from, jit)
    IN IF e.number # from + Len(d) \/ e.of # n THEN "number of the frame"
       ELSE IF Len(d) > 1 /\ e.names # (IF NamesOutput(from + Len(d) - 1) THEN 1 ELSE 0) THEN "name of the output"
       ELSE IF ~Written(Whole(e.took), u, e.elapsed.form, e.elapsed.shown) THEN "time of the frame"
       ELSE IF ~Written(q, u, e.left.form, e.left.shown) THEN "time left"
       ELSE IF e.left.mark # mark \/ e.endmark # mark THEN "mark of an upper bound"
       ELSE IF ~Coloured(q, u, e.left.colour) THEN "colour of the time left"
       ELSE IF e.end \notin Ends(e.now, q, u) THEN "time of the end" ELSE ""
Verdict(e) ==
    CASE e.kind = "start" -> ""
      [] e.kind = "frame" -> FrameVerdict(e)
      [] e.kind = "total" -> IF Written(Whole(Total(took)), u, e.total.form, e.total.shown)
                             THEN "" ELSE "total time"
TraceInit == i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "") /\ u = 1
             /\ n = 1 /\ inv = 1 /\ from = 0 /\ took = <<>> /\ stops = 0 /\ jit = FALSE
Take(e) ==
    CASE e.kind = "start" -> /\ n' = e.n /\ inv' = e.inv /\ from' = e.from /\ u' = e.u
                             /\ took' = <<>> /\ stops' = 0 /\ jit' = e.compiles
      [] e.kind = "frame" -> /\ took' = Append(took, e.took)
                             /\ UNCHANGED <<n, inv, from, stops, jit, u>>
      [] e.kind = "total" -> UNCHANGED <<progressVars, u>>
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(Trace[i])
       IN IF v = "" THEN i' = i + 1 /\ TLCSet(7, i + 1) /\ Take(Trace[i])
          ELSE TLCSet(8, v) /\ FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<i, u, progressVars>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
=============================================================================
