--------------------------- MODULE SDCompiledTrace -------------------------
(* Real processes which share a folder of compiled code.  Events:           *)
(*   new      an empty folder                                               *)
(*   process  its mode, path and facts, what it answered (got), and what    *)
(*            interpreted code answers in every world (refs)                *)
EXTENDS SDCompiled, Json

VARIABLES i
Trace == ndJsonDeserialize("trace.ndjson")
Near(x, y, t) == x - y <= t /\ y - x <= t
Same(x, y, t) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : Near(x[k], y[k], t)
FactsIn(p, w) == [f \in Uses(p) |-> w[f]]
Ref(e, a) == (CHOOSE r \in {e.refs[k] : k \in 1..Len(e.refs)} :
                  FactsIn(e.path, r.facts) = a).ans
HasRef(e, a) == \E k \in 1..Len(e.refs) : FactsIn(e.path, e.refs[k].facts) = a
Expected(e) == Answers(e.mode, e.path, e.facts, store)
Stale(e, f) == /\ store[e.path] # None
               /\ store[e.path][f] # e.facts[f]
               /\ LET a == [Expected(e) EXCEPT ![f] = store[e.path][f]]
                  IN HasRef(e, a) /\ Same(e.got, Ref(e, a), e.tol)
Verdict(e) ==
    IF e.kind = "new" THEN ""
    ELSE IF e.error # "" THEN "a " \o e.mode \o " process fails"
    ELSE IF Same(e.got, Ref(e, Expected(e)), e.tol) THEN ""
    ELSE IF e.mode = "compiled" /\ \E f \in Uses(e.path) : Stale(e, f)
         THEN "as with the earlier " \o (CHOOSE f \in Uses(e.path) : Stale(e, f))
    ELSE e.mode \o " code answers differently"

TraceInit == /\ i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "")
             /\ world = [f \in Facts |-> 1]
             /\ store = [p \in Paths |-> None] /\ last = [mode |-> "none"]
Take(e) == IF e.kind = "new" THEN Discard
           ELSE /\ world' = [f \in Facts |-> e.facts[f]]
                /\ last' = [mode |-> e.mode, path |-> e.path, world |-> world',
                            answer |-> Expected(e)]
                /\ store' = AfterUse(e.mode, e.path, e.facts, store)
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(Trace[i])
       IN IF v = "" THEN i' = i + 1 /\ TLCSet(7, i + 1) /\ Take(Trace[i])
          ELSE TLCSet(8, v) /\ FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<i, compiledVars>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
AllFacts == {"bead", "reach", "tables"}
AllPaths == {"free", "box", "run"}
=============================================================================
