---------------------------- MODULE SDReuseTrace ---------------------------
(* Real runs, frames of theirs read back, and runs made from these.         *)
(* Kinds of events: "read", one frame read back; "runs", a chain of two     *)
(* runs, with the frames of one long run to compare with.                   *)
EXTENDS SDReuse, Json

VARIABLES i
Trace == ndJsonDeserialize("trace.ndjson")
Near(x, y, t) == x - y <= t /\ y - x <= t
RECURSIVE Same(_, _, _, _)
Same(x, y, depth, t) ==
    IF depth = 0 THEN Near(x, y, t)
    ELSE Len(x) = Len(y) /\ \A k \in 1..Len(x) : Same(x[k], y[k], depth - 1, t)
Read(e) ==
    LET w == ReadBack(e.centres, e.deltax, e.size, e.beadsize)
        g == e.got
    IN IF ~Same(g.ss, w.ss, 1, 0) \/ ~Same(g.ds, w.ds, 1, 0) THEN "sizes and numbers"
       ELSE IF ~Same(g.sp, w.sp, 2, 0) THEN "sphere positions"
       ELSE IF ~Same(g.dp, w.dp, 2, 0) THEN "dumbbell positions"
       ELSE IF ~Same(g.dd, w.dd, 2, 0) THEN "dumbbell vectors"
       ELSE IF ~Same(g.sr, w.sr, 3, 1) THEN "rotation markers" ELSE ""
(* e.c1, e.c2: settings; e.row: the row of the first run read back;         *)
(* e.long: frames of the long run, from 0; e.first, e.second: saved rows    *)
Follows(e, b, c, rows) ==
    /\ Len(rows) = Len(ExpectedPos(c))
    /\ \A k \in 1..Len(rows) :
          /\ Same(rows[k].centres, e.long[RowFrame(b, c, k) + 1].centres, 2, e.tol)
          /\ Same(rows[k].deltax, e.long[RowFrame(b, c, k) + 1].deltax, 2, e.tol)
Joined(e) ==
    LET b == RowFrame(0, e.c1, e.row) IN
    IF ~Follows(e, 0, e.c1, e.first) THEN "the first run"
    ELSE IF ~Seamless(b, e.c2) THEN "not a case"
    ELSE IF ~Follows(e, b, e.c2, e.second) THEN "the run made from its frame" ELSE ""
Verdict(e) == IF e.kind = "read" THEN Read(e) ELSE Joined(e)

TraceInit == i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "") /\ ReuseInit
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(Trace[i])
       IN IF v = "" THEN i' = i + 1 /\ TLCSet(7, i + 1)
          ELSE TLCSet(8, v) /\ FALSE
    /\ UNCHANGED reuseVars
TraceSpec == TraceInit /\ [][TraceNext]_<<i, reuseVars>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
NoCfgs == {0}
=============================================================================
