------------------------------- MODULE SDPair ------------------------------
(* Two spheres, seen along and across their line of centres.                *)
(*                                                                          *)
(* Directions are local: e points from sphere 1 to sphere 2, f and g across *)
(* it.  Vectors are <<e, f, g>>; symmetric traceless tensors are            *)
(* <<ee, ef, eg, fg, (ff-gg)/2>>.  A motion gives both spheres a velocity   *)
(* U, a rotation O and a strain rate E; held are the force, torque and      *)
(* stresslet that maintain it.                                              *)
(*                                                                          *)
(* Each sphere i sees the other in its own direction, and has scalars of    *)
(* its own: x along, y across and z around the line, 1 for its own motion   *)
(* and 2 for the other's.  What a sphere's force owes to the rotation or    *)
(* strain of the other is what the other's torque or stresslet owes to its  *)
(* velocity.                                                                *)
EXTENDS Integers, Sequences

Other(i) == 3 - i
Side(i) == IF i = 1 THEN 1 ELSE -1

Held(c, m, i) ==
    LET o == Other(i)
        s == Side(i)
        k == c[i]
        U == m[i].U   O == m[i].O   E == m[i].E
        V == m[o].U   P == m[o].O   D == m[o].E
    IN [F |->
          << k.FA.x1*U[1] + k.FA.x2*V[1] + s*(k.FG.x1*E[1] - k.FG.x2*D[1]),
             k.FA.y1*U[2] + k.FA.y2*V[2] + s*(k.FB.y2*P[3] - k.FB.y1*O[3])
               + 2*s*(k.FG.y1*E[2] - k.FG.y2*D[2]),
             k.FA.y1*U[3] + k.FA.y2*V[3] + s*(k.FB.y1*O[2] - k.FB.y2*P[2])
               + 2*s*(k.FG.y1*E[3] - k.FG.y2*D[3]) >>,
        T |->
          << k.TC.x1*O[1] + k.TC.x2*P[1],
             k.TC.y1*O[2] + k.TC.y2*P[2] + s*(k.TB.y1*U[3] + k.TB.y2*V[3])
               - 2*(k.TH.y1*E[3] + k.TH.y2*D[3]),
             k.TC.y1*O[3] + k.TC.y2*P[3] - s*(k.TB.y1*U[2] + k.TB.y2*V[2])
               + 2*(k.TH.y1*E[2] + k.TH.y2*D[2]) >>,
        S3 |->       \* three times the stresslet
          << 2*s*(k.SG.x1*U[1] + k.SG.x2*V[1]) + 3*(k.SM.x1*E[1] + k.SM.x2*D[1]),
             3*(s*(k.SG.y1*U[2] + k.SG.y2*V[2]) + k.SH.y1*O[3] + k.SH.y2*P[3]
                + k.SM.y1*E[2] + k.SM.y2*D[2]),
             3*(s*(k.SG.y1*U[3] + k.SG.y2*V[3]) - k.SH.y1*O[2] - k.SH.y2*P[2]
                + k.SM.y1*E[3] + k.SM.y2*D[3]),
             3*(k.SM.z1*E[4] + k.SM.z2*D[4]),
             3*(k.SM.z1*E[5] + k.SM.z2*D[5]) >>]

(* The coefficients of sphere i from the scalars t[i] each sphere has for   *)
(* its view of the other.                                                   *)
Coefficients(t) == [i \in 1..2 |->
    LET a == t[i]  b == t[Other(i)] IN
    [FA |-> a.A,
     FB |-> [y1 |-> a.B.y1, y2 |-> b.B.y2],
     FG |-> [x1 |-> a.G.x1, y1 |-> a.G.y1, x2 |-> b.G.x2, y2 |-> b.G.y2],
     TB |-> a.B, TC |-> a.C,
     TH |-> [y1 |-> a.H.y1, y2 |-> b.H.y2],
     SG |-> a.G, SH |-> a.H, SM |-> a.M]]
=============================================================================
