---------------------------- MODULE SDPlaceTrace ---------------------------
(* Arrangements which the real functions returned.  placed lists spheres,   *)
(* or the two beads of one dumbbell after another; in thousandths.          *)
EXTENDS SDPlace, TLC, Json

VARIABLES i
Trace == ndJsonDeserialize("trace.ndjson")
Clashing(e, b, c) == IF e.kind = "periodic" THEN OverlapPeriodic(b, c, e.box, 2, 4)
                     ELSE Overlap(b, c, 4)
Centre2(e, j) == Plus(e.placed[2*j-1].at, e.placed[2*j].at)
Within(e) ==
    CASE e.kind = "quadrilateral" -> \A j \in DOMAIN e.placed :
            InPolygon(e.placed[j].at, e.poly, e.hair) /\ e.placed[j].at[2] = 0
      [] e.kind = "periodic" -> \A j \in 1..(Len(e.placed) \div 2) :
            (* centres in the periodic directions, first beads across       *)
            /\ \A k \in {1, 3} : /\ 2*e.box.lo[k] - 4 <= Centre2(e, j)[k]
                                 /\ Centre2(e, j)[k] <= 2*e.box.hi[k] + 4
            /\ e.box.lo[2] - 2 <= e.placed[2*j-1].at[2]
            /\ e.placed[2*j-1].at[2] <= e.box.hi[2] + 2
      [] e.kind = "setup" -> TRUE
      [] OTHER -> \A j \in DOMAIN e.placed : InBox(e.placed[j].at, e.box, 2)
Dumbbells(e) == e.kind \in {"dumbbells", "periodic"}
SpacedBy(e) == \A j \in 1..(Len(e.placed) \div 2) :
    LET d == Minus(e.placed[2*j].at, e.placed[2*j-1].at)
    IN /\ \A k \in 1..3 : Abs(d[k]) <= e.length + 3
       /\ Abs(Dot(d, d) - e.length*e.length) <= 8*e.length
Verdict(e) ==
    IF ~e.ok THEN "an arrangement"
    ELSE IF Len(e.placed) # e.asked THEN "as many as asked for"
    ELSE IF \E j \in DOMAIN e.placed : e.placed[j].at[1] > 100000000 THEN "numbers"
    ELSE IF ~Within(e) THEN "inside the region"
    ELSE IF Dumbbells(e) /\ ~SpacedBy(e) THEN "beads the asked distance apart"
    ELSE IF e.flat /\ \E j \in DOMAIN e.placed : e.placed[j].at[2] # e.box.lo[2]
    THEN "flat arrangements"
    ELSE IF ~Clear(e.present, e.placed, Dumbbells(e), LAMBDA b, c : Clashing(e, b, c))
    THEN "no overlaps" ELSE ""

TraceInit == i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "") /\ placed = 0 /\ tried = 0
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(Trace[i])
       IN IF v = "" THEN i' = i + 1 /\ TLCSet(7, i + 1)
          ELSE TLCSet(8, v) /\ FALSE
    /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<i, vars>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
None == {}
NoBox == [lo |-> V0, hi |-> V0]
NoSeq == <<>>
=============================================================================
