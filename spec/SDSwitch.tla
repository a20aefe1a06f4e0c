------------------------------ MODULE SDSwitch -----------------------------
(* The three switches of the approximation and what each leaves in place.   *)
(*                                                                          *)
(* The answer to any problem is put together from, for every ordered pair   *)
(* of particles <<p, q>>, a far-field entry (the motion of p due to the     *)
(* loads on q) and a near-field entry (the loads on p which the motion of q *)
(* needs on top).  s.near: whether there is a near field; s.drag: whether   *)
(* the far field is only every particle's own Stokes drag; s.beads: whether *)
(* beads of dumbbells act on each other.                                    *)
EXTENDS SDFar, FiniteSets

Default == [near |-> TRUE, drag |-> FALSE, beads |-> TRUE]
Switches == [near : BOOLEAN, drag : BOOLEAN, beads : BOOLEAN]
Muted(s, kinds, p, q) == ~s.beads /\ p # q /\ kinds[p] = "bead" /\ kinds[q] = "bead"
(* Which entry stands in each place                                         *)
FarEntry(s, kinds, p, q) ==
    IF p = q THEN (IF s.drag THEN "stokes" ELSE "own")
    ELSE IF s.drag \/ Muted(s, kinds, p, q) THEN "none" ELSE "far"
NearEntry(s, kinds, p, q) ==
    IF ~s.near THEN "none"
    ELSE IF p = q THEN "self"
    ELSE IF Muted(s, kinds, p, q) THEN "none" ELSE "pair"

(***************************************************************************)
(* Switching, one at a time, from any state                                 *)
(***************************************************************************)
CONSTANTS Kinds
VARIABLES kinds, s, before
vars == <<kinds, s, before>>
Init == kinds \in Kinds /\ s = Default /\ before = Default
Toggle(f) == s' = [s EXCEPT ![f] = ~@] /\ before' = s /\ UNCHANGED kinds
Next == \E f \in {"near", "drag", "beads"} : Toggle(f)
Spec == Init /\ [][Next]_vars

Places == (DOMAIN kinds) \X (DOMAIN kinds)
Both(p) == kinds[p[1]] = "bead" /\ kinds[p[2]] = "bead"
FarSame(p) == FarEntry(s, kinds, p[1], p[2]) = FarEntry(before, kinds, p[1], p[2])
NearSame(p) == NearEntry(s, kinds, p[1], p[2]) = NearEntry(before, kinds, p[1], p[2])
(* Each switch changes only what it says                                    *)
OnlyNear == s.near # before.near =>
    \A p \in Places : FarSame(p) /\ (~s.near => NearEntry(s, kinds, p[1], p[2]) = "none")
OnlyDrag == s.drag # before.drag => \A p \in Places : NearSame(p)
OnlyBeads == s.beads # before.beads => \A p \in Places :
    (~Both(p) \/ p[1] = p[2]) => FarSame(p) /\ NearSame(p)
(* and entries stay reciprocal                                              *)
Reciprocal == \A p \in Places :
    /\ FarEntry(s, kinds, p[1], p[2]) = FarEntry(s, kinds, p[2], p[1])
    /\ NearEntry(s, kinds, p[1], p[2]) = NearEntry(s, kinds, p[2], p[1])
Quiet == ~s.beads => \A p \in Places : (Both(p) /\ p[1] # p[2]) =>
    FarEntry(s, kinds, p[1], p[2]) = "none" /\ NearEntry(s, kinds, p[1], p[2]) = "none"
Everywhere == (s = Default) => \A p \in Places :
    FarEntry(s, kinds, p[1], p[2]) \in {"own", "far"} /\ NearEntry(s, kinds, p[1], p[2]) # "none"
=============================================================================
