---------------------------- MODULE SDSolveTrace ---------------------------
(* Sessions with the real solver, held against the laws of SDLaws.          *)
(*                                                                          *)
(* Every event is one solve: the change that led to it (op "base" starts    *)
(* afresh), the event whose answer the law starts from (from, and from2     *)
(* for sums), whether it was solved at all (ok), whether its arguments      *)
(* were left alone (kept), the quantised answer, the tolerance in units of  *)
(* the quantisation, and the values that were prescribed (given: a record   *)
(* of sequences with <<>> where nothing was prescribed).                    *)
EXTENDS SDLaws, TLC, Json

VARIABLES i, ans
Trace == ndJsonDeserialize("trace.ndjson")
ev == Trace[i]

OpOf(e) == IF e.op = "swap"
           THEN [e EXCEPT !.w = {e.w[k] : k \in DOMAIN e.w}]
           ELSE e

GivenBack(e) ==
    \A f \in DOMAIN e.given :
        \A k \in DOMAIN e.given[f] :
            e.given[f][k] /= <<>> =>
                /\ Len(e.ans[f]) >= k
                /\ IF Kind(f) = "tensor"
                   THEN NearM(e.given[f][k], e.ans[f][k], 2)
                   ELSE NearV(e.given[f][k], e.ans[f][k], 2)

Counts(e) == /\ \A f \in SphereFields : Len(e.ans[f]) = e.ns
             /\ \A f \in DumbbellFields : Len(e.ans[f]) = e.nd

LawOf(e) ==
    IF e.op = "base" THEN {}
    ELSE LET a == IF e.from = i - 1 THEN ans ELSE Trace[e.from].ans
             a2 == IF e.op = "combine" THEN Trace[e.from2].ans ELSE a
         IN BrokenFields(OpOf(e), a, a2, e.ans, e.tol)

Verdict(e) ==
    IF ~e.ok THEN "solved"
    ELSE IF ~Counts(e) THEN "every value is determined"
    ELSE IF ~GivenBack(e) THEN "prescribed values come back"
    ELSE IF ~e.kept THEN "arguments are left alone"
    ELSE LET b == LawOf(e)
         IN IF b = {} THEN "" ELSE "law of " \o e.op \o " for "
                                   \o (CHOOSE f \in b : TRUE)

TraceInit == i = 1 /\ ans = <<>> /\ TLCSet(7, 1) /\ TLCSet(8, "")
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(ev)
       IN IF v = "" THEN i' = i + 1 /\ ans' = ev.ans /\ TLCSet(7, i + 1)
          ELSE TLCSet(8, v) /\ FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<i, ans>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
=============================================================================
