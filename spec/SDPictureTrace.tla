--------------------------- MODULE SDPictureTrace --------------------------
(* Pictures really drawn.  Events: start (a session, with its frames and    *)
(* what is switched on), picture.                                           *)
EXTENDS SDPicture, Json

VARIABLES i, world, paths
Trace == ndJsonDeserialize("trace.ndjson")
Frame(k) == world.frames[k]
MustLines(e, f) == Markers(f) \cup (IF world.rods THEN Rods(f) ELSE {})
NewPaths(e) == IF world.paths THEN Paths(Frame(e.row - 1), Frame(e.row), e.row) ELSE {}
(* Forces are known for as many frames as were saved                        *)
Force(e) == world.forces[IF e.force <= Len(world.forces) THEN e.force ELSE Len(world.forces)]
Arrows(e, f) ==
    IF world.arrows
    THEN {<<Times(2, f.x[j]), Plus(Times(2, f.x[j]), Times(12, Force(e)[j]))>> :
            j \in {m \in 1..Len(f.x) : Size2(Force(e)[m]) > 0 /\ f.x[m][2] \in -999..49}}
    ELSE {}
(* The force is rounded before it is made six times as long                 *)
SameArrow(drawn, s) ==
    NearBy(Times(2, drawn.a), s[1]) /\ \A j \in 1..3 : 2 * drawn.b[j] - s[2][j] \in -12..12
ShowsArrows(drawn, must) ==
    /\ \A s \in must : \E k \in 1..Len(drawn) : SameArrow(drawn[k], s)
    /\ \A k \in 1..Len(drawn) : \E s \in must : SameArrow(drawn[k], s)
    /\ Len(drawn) = Cardinality(must)
ColoursRight(e, f) ==
    \A k \in 1..Len(e.discs) : \A j \in 1..Len(f.x) :
        SameDisc(e.discs[k], [c |-> Times(2, f.x[j]), r |-> f.r[j]]) =>
            Coloured(e.discs[k], Force(e)[j])
PictureVerdict(e) ==
    LET f == Frame(e.row)
        discs == Discs(f)
        lines == MustLines(e, f)
        all == paths \cup NewPaths(e)
        b == e.box
    IN IF e.number # e.wanted \/ e.of # world.of THEN "title"
       ELSE IF b.side[1] = 0 THEN
            IF ~ShowsDiscs(e.discs, discs, discs) THEN "discs"
            ELSE IF ~ShowsLines(e.lines, lines \cup all, lines \cup all) THEN "lines"
            ELSE IF ~ShowsArrows(e.arrows, Arrows(e, f)) THEN "force arrows"
            ELSE IF ~ColoursRight(e, f) THEN "colours" ELSE ""
       ELSE IF ~ShowsDiscs(e.discs, {CopyDisc(d, o) : d \in discs, o \in MustCopy(b)},
                                    {CopyDisc(d, o) : d \in discs, o \in MayCopy(b)}) THEN "periodic discs"
            ELSE IF ~ShowsLines(e.lines,
                        {CopyLine(s, o) : s \in lines, o \in MustCopy(b)} \cup Outline(b),
                        {CopyLine(s, o) : s \in lines, o \in MayCopy(b)} \cup Outline(b)) THEN "periodic lines"
            ELSE IF ~ColoursRight(e, f) THEN "colours" ELSE ""
Verdict(e) == CASE e.kind = "start" -> ""
                [] e.kind = "file" -> IF e.used = e.newest THEN "" ELSE "the newest file"
                [] e.kind = "picture" -> PictureVerdict(e)
TraceInit == i = 1 /\ TLCSet(7, 1) /\ TLCSet(8, "") /\ world = <<>> /\ paths = {} /\ PictureInit
Take(e) ==
    CASE e.kind = "start" -> world' = e /\ paths' = {}
      [] e.kind = "file" -> UNCHANGED <<world, paths>>
      [] e.kind = "picture" -> paths' = paths \cup NewPaths(e) /\ UNCHANGED world
TraceNext ==
    /\ i <= Len(Trace)
    /\ LET v == Verdict(Trace[i])
       IN IF v = "" THEN i' = i + 1 /\ TLCSet(7, i + 1) /\ Take(Trace[i]) /\ UNCHANGED pictureVars
          ELSE TLCSet(8, v) /\ FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<i, world, paths, pictureVars>>
TraceAccepted ==
    IF TLCGet(7) > Len(Trace) THEN TRUE
    ELSE PrintT(<<"VOUT", TLCGet(7), TLCGet(8)>>) /\ FALSE
=============================================================================
