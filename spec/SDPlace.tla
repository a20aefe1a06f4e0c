------------------------------ MODULE SDPlace ------------------------------
(* Placing particles at random.  A ball is [at, r]; lengths are integers.   *)
(* The region is a box from lo to hi (flat if lo = hi along an axis), or a  *)
(* convex polygon in the plane of axes 1 and 3.  In periodic boxes axes 1   *)
(* and 3 repeat.                                                            *)
EXTENDS SDVec

Reach(b, c) == b.r + c.r
(* Overlap by more than a hair                                              *)
Overlap(b, c, hair) ==
    LET d == Minus(b.at, c.at) IN
    /\ \A k \in 1..3 : Abs(d[k]) < Reach(b, c)
    /\ Dot(d, d) < Reach(b, c)*Reach(b, c) - hair*Reach(b, c)
Moved(b, box, m, n) ==
    [b EXCEPT !.at = Plus(@, <<m*(box.hi[1] - box.lo[1]), 0, n*(box.hi[3] - box.lo[3])>>)]
OverlapPeriodic(b, c, box, reach, hair) ==
    \E m, n \in -reach..reach : Overlap(b, Moved(c, box, m, n), hair)
InBox(p, box, hair) == \A k \in 1..3 : box.lo[k] - hair <= p[k] /\ p[k] <= box.hi[k] + hair
(* Inside a convex polygon, corners in either order: never on both sides    *)
Side(p, a, b) == (b[1] - a[1])*(p[3] - a[2]) - (b[2] - a[2])*(p[1] - a[1])
Next4(poly, k) == poly[1 + (k % Len(poly))]
InPolygon(p, poly, hair) ==
    \/ \A k \in DOMAIN poly : Side(p, poly[k], Next4(poly, k)) >= -hair
    \/ \A k \in DOMAIN poly : Side(p, poly[k], Next4(poly, k)) <= hair
Flat(box) == box.lo[2] = box.hi[2]

(* Arrangements: present and placed balls, partners being beads of one      *)
(* dumbbell (whose distance is what was asked for)                          *)
Partners(j, k) == (j + 1) \div 2 = (k + 1) \div 2
Clear(present, placed, paired, clash(_, _)) ==
    /\ \A j \in DOMAIN placed, k \in DOMAIN present : ~clash(placed[j], present[k])
    /\ \A j, k \in DOMAIN placed :
         (j < k /\ ~(paired /\ Partners(j, k))) => ~clash(placed[j], placed[k])

(***************************************************************************)
(* Placement by proposal and rejection                                      *)
(***************************************************************************)
CONSTANTS Box, Present, Radii, Kind, Length, Ways
VARIABLES placed, tried
vars == <<placed, tried>>
Points == {<<x, y, z>> : x \in Box.lo[1]..Box.hi[1], y \in Box.lo[2]..Box.hi[2],
                         z \in Box.lo[3]..Box.hi[3]}
Periodic == Kind = "periodic"
Clash(b, c) == IF Periodic THEN OverlapPeriodic(b, c, Box, 1, 0) ELSE Overlap(b, c, 0)
Free(b) == /\ \A k \in DOMAIN Present : ~Clash(b, Present[k])
           /\ \A k \in DOMAIN placed : ~Clash(b, placed[k])
Number == IF Kind = "spheres" THEN Len(placed) ELSE Len(placed) \div 2
Done == Number = Len(Radii)
Ball(p) == [at |-> p, r |-> Radii[Number + 1]]
Init == placed = <<>> /\ tried = FALSE
Place == /\ ~Done
         /\ \E p \in Points :
              \/ /\ Kind = "spheres" /\ Free(Ball(p))
                 /\ placed' = Append(placed, Ball(p))
              \/ /\ Kind # "spheres" /\ Free(Ball(p))
                 /\ \E w \in Ways :
                      LET q == Plus(p, Times(Length, w)) IN
                      /\ Periodic \/ InBox(q, Box, 0)
                      /\ Free(Ball(q))
                      /\ placed' = placed \o <<Ball(p), Ball(q)>>
         /\ tried' = FALSE
Reject == /\ ~Done /\ ~tried
          /\ \E p \in Points : ~Free(Ball(p))
          /\ tried' = TRUE /\ UNCHANGED placed
Spec == Init /\ [][Place \/ Reject]_vars

Never == Clear(Present, placed, Kind # "spheres", LAMBDA b, c :
    IF Periodic THEN OverlapPeriodic(b, c, Box, 3, 0) ELSE Overlap(b, c, 0))
Inside == \A j \in DOMAIN placed :
    (Periodic /\ j % 2 = 0) \/ InBox(placed[j].at, Box, 0)
Spaced == Kind # "spheres" => \A j \in 1..(Len(placed) \div 2) :
    LET d == Minus(placed[2*j].at, placed[2*j-1].at) IN Dot(d, d) = Length*Length
StaysFlat == Flat(Box) => \A j \in DOMAIN placed : placed[j].at[2] = Box.lo[2]
AsAsked == Len(placed) <= (IF Kind = "spheres" THEN 1 ELSE 2)*Len(Radii)
           /\ \A j \in DOMAIN placed :
                placed[j].r = Radii[IF Kind = "spheres" THEN j ELSE (j + 1) \div 2]
=============================================================================
