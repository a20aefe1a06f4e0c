------------------------------- MODULE SDWall ------------------------------
(* The force on spheres held at given velocities, and the dumbbells' share. *)
(*                                                                          *)
(* What is prescribed comes in parts: the velocities of the held spheres,   *)
(* the forces on the free ones, torques, strain rates, and the forces on    *)
(* dumbbells.  The force needed on every held sphere is linear in all of    *)
(* them (Stokes problems are), with coefficients set by the configuration   *)
(* only; the share of the dumbbells is the sum over theirs.                 *)
EXTENDS SDVec

Parts == {"held", "free", "torque", "strain", "dumbbells"}
(* m[k][p]: coefficient of part p for held sphere k; x[p]: what is given    *)
Force(m, x, k) == m[k]["held"]*x["held"] + m[k]["free"]*x["free"]
    + m[k]["torque"]*x["torque"] + m[k]["strain"]*x["strain"]
    + m[k]["dumbbells"]*x["dumbbells"]
Share(m, x, k) == m[k]["dumbbells"]*x["dumbbells"]
Without(x) == [x EXCEPT !["dumbbells"] = 0]
Only(x) == [p \in Parts |-> IF p = "dumbbells" THEN x[p] ELSE 0]

(* How forces f and shares w, before and after a change o of what is given, *)
(* belong together: the laws measured answers must obey                     *)
ShareLaw(w, f, without) == w = f - without
OtherLaw(wBefore, wAfter) == wBefore = wAfter
ScaleLaw(n, wBefore, wAfter) == wAfter = n*wBefore

(***************************************************************************)
(* A session with one configuration: what is given changes, the share is    *)
(* asked for or not                                                         *)
(***************************************************************************)
CONSTANTS Coefficients, Values
VARIABLES m, x, asked, forces, share, last
vars == <<m, x, asked, forces, share, last>>
Answer == /\ forces' = [k \in DOMAIN m |-> Force(m, x', k)]
          /\ share' = [k \in DOMAIN m |-> IF asked' THEN Share(m, x', k) ELSE 0]
Init == /\ m \in Coefficients
        /\ x = [p \in Parts |-> 1] /\ asked = TRUE
        /\ forces = [k \in DOMAIN m |-> Force(m, x, k)]
        /\ share = [k \in DOMAIN m |-> Share(m, x, k)]
        /\ last = [op |-> "base"]
Give(p, v) == /\ x[p] # v
              /\ x' = [x EXCEPT ![p] = v] /\ asked' = asked
              /\ last' = [op |-> IF p = "dumbbells" THEN "scale" ELSE "other",
                          part |-> p, from |-> x[p], to |-> v]
Quiet == x["dumbbells"] # 0 /\ x' = Without(x) /\ asked' = asked /\ last' = [op |-> "quiet"]
Alone == x' = Only(x) /\ asked' = asked /\ last' = [op |-> "alone"]
Ask == asked' = ~asked /\ x' = x /\ last' = [op |-> "ask"]
Next == /\ \/ \E p \in Parts, v \in Values : Give(p, v)
           \/ Quiet \/ Alone \/ Ask
        /\ Answer /\ UNCHANGED m
Spec == Init /\ [][Next]_vars

Exact == asked => \A k \in DOMAIN m :
    ShareLaw(share[k], forces[k], Force(m, Without(x), k))
WhenAlone == (asked /\ last.op = "alone") => forces = share
Changes == [][
    /\ last'.op = "ask" => forces' = forces
    /\ (last'.op = "other" /\ asked) => \A k \in DOMAIN m : OtherLaw(share[k], share'[k])
    /\ (last'.op = "scale" /\ asked) => \A k \in DOMAIN m :
         ScaleLaw(last'.to, share[k], last'.from*share'[k])
    /\ (last'.op = "quiet" /\ asked) => \A k \in DOMAIN m :
         share'[k] = 0 /\ ShareLaw(share[k], forces[k], forces'[k])]_vars
=============================================================================
