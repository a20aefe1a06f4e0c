---------------------------- MODULE SDTablesTrace --------------------------
(* What the real scripts left in their folder, and laws of the tables.      *)
(* Separations in hundred-thousandths; entries in the unit of the event.    *)
EXTENDS SDTables, TLC, Json

VARIABLES i
Trace == ndJsonDeserialize("trace.ndjson")

Near2(a, b, tol) == Abs(a - b) <= tol
Like(v, w, tol) ==
    /\ Len(v) = Len(w)
    /\ \A s \in DOMAIN v : /\ Len(v[s]) = Len(w[s])
                           /\ \A j \in DOMAIN v[s] : /\ Len(v[s][j]) = Len(w[s][j])
                                                     /\ \A k \in DOMAIN v[s][j] :
                                                           Near2(v[s][j][k], w[s][j][k], tol)
(* The printed lines: separation, ratio, own (0) or other's (1), entries    *)
Lines(t) == {<<t.seps[a], t.rats[b], g, [k \in 1..11 |-> t.val[a][b][11*g + k]]>> :
                a \in DOMAIN t.seps, b \in DOMAIN t.rats, g \in 0..1}
Printed(e, t) == /\ Len(e.lines) = Cardinality(Lines(t))
                 /\ \A x \in Lines(t) : \E n \in DOMAIN e.lines :
                       LET y == e.lines[n]
                       IN /\ y.sep = x[1] /\ y.rat = x[2] /\ y.own = x[3]
                          /\ \A k \in 1..11 : Near2(y.val[k], x[4][k], e.tol)

Made1(t) == [seps |-> t.seps, rats |-> WithInverses(t.rats), val |-> t.val]
Step(e) ==
    CASE e.op = "renew" -> /\ near' = Made1(e.near) /\ mid' = Made1(e.mid)
                           /\ IF e.fresh     \* another folder
                              THEN general' = None /\ corrected' = None /\ dragged' = None
                              ELSE UNCHANGED <<general, corrected, dragged>>
      [] e.op = "combine" -> DoCombine
      [] e.op = "subtract" -> /\ general # None
                              /\ corrected' = Without(general, e.far)
                              /\ UNCHANGED <<near, mid, general, dragged>>
      [] e.op = "drag" -> DoDrag(e.unit)
      [] OTHER -> UNCHANGED vars

Folder(e) ==
    IF ~e.ok THEN "the script finishes"
    ELSE IF e.seps # general'.seps THEN "in order of separation"
    ELSE IF ~Like(e.general, general'.val, e.tol) THEN "near-field and mid-field put together"
    ELSE IF corrected' # None /\ ~Like(e.corrected, corrected'.val, e.tol)
    THEN "the far field taken away"
    ELSE IF dragged' # None /\ ~Like(e.dragged, dragged'.val, e.tol)
    THEN "the isolated values taken away"
    ELSE IF e.lines # <<>> /\ ~Printed(e, CASE e.op = "combine" -> general'
                                            [] e.op = "subtract" -> corrected'
                                            [] OTHER -> dragged')
    THEN "the printed table" ELSE ""
Pairs(e) == IF \A n \in DOMAIN e.pairs :
                  IF e.law = "dies away" THEN DiesAway(e.pairs[n][1], e.pairs[n][2], e.small, e.tol)
                  ELSE IF e.law = "joins" THEN Joins(e.pairs[n][1], e.pairs[n][2], e.tol)
                  ELSE IF e.law = "reciprocal" THEN Reciprocal(e.pairs[n][1], e.pairs[n][2], e.tol)
                  ELSE Near2(e.pairs[n][1], e.pairs[n][2], e.tol)
            THEN "" ELSE e.what
Verdict(e) ==
    CASE e.op = "renew" -> IF ~e.ok THEN "the lists" ELSE ""
      [] e.op = "law" -> IF ~e.ok THEN e.what ELSE Pairs(e)
      [] e.op = "ascending" -> IF Ascending(e.seps) THEN "" ELSE "in order of separation"
      [] OTHER -> Folder(e)

TraceInit == /\ i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "")
             /\ near = None /\ mid = None /\ general = None /\ corrected = None /\ dragged = None
TraceNext ==
    /\ i <= Len(Trace)
    /\ Step(Trace[i])
    /\ LET v == Verdict(Trace[i])
       IN IF v = "" THEN i' = i + 1 /\ TLCSet(7, i + 1)
          ELSE TLCSet(8, v) /\ FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<i, vars>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
NoLists == {}
NoValue(s, p) == <<>>
=============================================================================
