------------------------------ MODULE SDPicture ----------------------------
(* Pictures of particles: of one saved frame, of every frame of a video,    *)
(* and of a run while it runs.  What a picture must show is a set of discs  *)
(* and lines; what it does show are sequences of drawn ones.  Positions are *)
(* triples of whole numbers (thousandths), discs and lines records.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(***************************************************************************)
(* What must be shown of a frame                                            *)
(***************************************************************************)
Plus(a, b) == [j \in 1..3 |-> a[j] + b[j]]
Times(k, a) == [j \in 1..3 |-> k * a[j]]
Size2(a) == a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
(* f: centres, markers and radii of spheres; centres, vectors, radii of     *)
(* dumbbells.  Everything doubled, as beads are half a vector away.         *)
Bead1(f, i) == Plus(Times(2, f.dx[i]), Times(-1, f.dd[i]))
Bead2(f, i) == Plus(Times(2, f.dx[i]), f.dd[i])
Discs(f) ==
    {[c |-> Times(2, f.x[i]), r |-> f.r[i]] : i \in 1..Len(f.x)}
    \cup {[c |-> Bead1(f, i), r |-> f.dr[i]] : i \in 1..Len(f.dx)}
    \cup {[c |-> Bead2(f, i), r |-> f.dr[i]] : i \in 1..Len(f.dx)}
Markers(f) == {<<Times(2, f.x[i]), Times(2, f.mark[i][j])>> : i \in 1..Len(f.x), j \in 1..2}
Rods(f) == {<<Bead1(f, i), Bead2(f, i)>> : i \in 1..Len(f.dx)}
(* Paths are told apart even if nothing moves                               *)
Paths(f, g, k) == {<<Times(2, f.x[i]), Times(2, g.x[i]), k, i>> : i \in 1..Len(f.x)}

(* A periodic box: sides, its lower corner, and the distance by which its   *)
(* top has moved.  Copies are drawn to the left, right, above and below.    *)
Top(b) == <<b.moved % b.side[1], 0, b.side[3]>>
Offset(b, l, n) == Plus(<<l * b.side[1], 0, 0>>, Times(n, Top(b)))
(* The nearer ones: within the square root of 2 mean sides                  *)
Coarse(a) == [j \in 1..3 |-> a[j] \div 20]
Close(b, o) == 100 * Size2(Coarse(o)) <= 196 * (b.mean \div 20) * (b.mean \div 20)
Far(b, o) == 100 * Size2(Coarse(o)) >= 204 * (b.mean \div 20) * (b.mean \div 20)
Steps == {<<l, n>> : l \in -1..1, n \in -1..1}
MustCopy(b) == {Offset(b, s[1], s[2]) : s \in {t \in Steps : Close(b, Offset(b, t[1], t[2]))}}
MayCopy(b) == {Offset(b, s[1], s[2]) : s \in {t \in Steps : ~Far(b, Offset(b, t[1], t[2]))}}
CopyDisc(d, o) == [c |-> Plus(d.c, Times(2, o)), r |-> d.r]
CopyLine(s, o) == <<Plus(s[1], Times(2, o)), Plus(s[2], Times(2, o))>>
(* Corner with the fractions x and z (halves) of the sides, doubled         *)
Corner(b, p, q) ==
    LET u == b.low[1] + p * b.side[1]
        w == b.low[3] + q * b.side[3]
    IN <<2 * u + (2 * w * Top(b)[1]) \div b.side[3], 0, 2 * w>>
Outline(b) == {<<Corner(b, 0, 0), Corner(b, 0, 1)>>, <<Corner(b, 0, 1), Corner(b, 1, 1)>>,
               <<Corner(b, 1, 1), Corner(b, 1, 0)>>, <<Corner(b, 1, 0), Corner(b, 0, 0)>>}

(***************************************************************************)
(* What is drawn shows what must be shown                                   *)
(***************************************************************************)
Tolerance == 5
NearBy(a, b) == \A j \in 1..3 : a[j] - b[j] \in -Tolerance..Tolerance
SameDisc(drawn, d) == NearBy(Times(2, drawn.c), d.c) /\ drawn.r - d.r \in -2..2
SameLine(drawn, s) ==
    \/ NearBy(Times(2, drawn.a), s[1]) /\ NearBy(Times(2, drawn.b), s[2])
    \/ NearBy(Times(2, drawn.a), s[2]) /\ NearBy(Times(2, drawn.b), s[1])
(* Every one that must be there is there once, and every one may be there.  *)
(* Lines may coincide: their number is bounded.                             *)
ShowsDiscs(drawn, must, may) ==
    /\ \A d \in must : Cardinality({k \in 1..Len(drawn) : SameDisc(drawn[k], d)}) = 1
    /\ \A k \in 1..Len(drawn) : \E d \in may : SameDisc(drawn[k], d)
    /\ Len(drawn) <= Cardinality(may)
ShowsLines(drawn, must, may) ==
    /\ \A s \in must : \E k \in 1..Len(drawn) : SameLine(drawn[k], s)
    /\ \A k \in 1..Len(drawn) : \E s \in may : SameLine(drawn[k], s)
    /\ Len(drawn) <= Cardinality(may)
(* The colour of a sphere goes from blue to red as its force goes to 1      *)
Coloured(drawn, force) ==
    /\ drawn.colour[2] = 0
    /\ drawn.colour[1] + drawn.colour[3] \in 999..1001
    /\ LET c == drawn.colour[1] f == Size2(force)
       IN IF c >= 1000 THEN f >= 998 * 998
          ELSE f <= (c + 2) * (c + 2) /\ (c >= 2 => f >= (c - 2) * (c - 2))

(***************************************************************************)
(* The canvas while pictures follow each other                              *)
(***************************************************************************)
(* Things are named here by their kind and frame only.  An animation may    *)
(* draw its first frame twice.  Kinds in Forgotten are not taken away.      *)
CONSTANTS Frames, Kinds, Forgotten, Tracing
VARIABLES canvas, shown
pictureVars == <<canvas, shown>>
PictureInit == canvas = {} /\ shown = 0
Drawn(k, again) == {[kind |-> x, frame |-> k, copy |-> again] : x \in Kinds}
Trail(k) == IF Tracing THEN {[kind |-> "path", frame |-> k, copy |-> 0]} ELSE {}
Kept == {a \in canvas : a.kind \in Forgotten \cup {"path"}}
Picture(k, again) == canvas' = Kept \cup Drawn(k, again) \cup Trail(k) /\ shown' = k
PictureNext == \/ shown < Frames /\ Picture(shown + 1, 0)
               \/ shown = 1 /\ Picture(1, 1)
PictureSpec == PictureInit /\ [][PictureNext]_pictureVars
OnlyThisFrame == \A a \in canvas : a.kind # "path" => a.frame = shown
EachOnce == \A x \in Kinds : Cardinality({a \in canvas : a.kind = x}) = (IF shown = 0 THEN 0 ELSE 1)
AllPaths == Tracing => {a.frame : a \in {b \in canvas : b.kind = "path"}} = 1..shown
=============================================================================
