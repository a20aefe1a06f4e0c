------------------------------- MODULE SDLaws ------------------------------
(* What must happen to the answer of a Stokes problem when the problem is   *)
(* changed: the laws which bind two solves to each other.                   *)
(*                                                                          *)
(* An answer holds, for every sphere, force F, torque T, stresslet S,       *)
(* velocity U, angular velocity O, strain rate E, and for every dumbbell    *)
(* total force Fb, difference of bead forces Db, mean velocity Ub and half  *)
(* the difference of bead velocities Hb.  Each of the ten fields is in its  *)
(* own units, so that a law may relate different answers field by field.    *)
(*                                                                          *)
(* Expected values are rationals: a law gives, for every field, an integer  *)
(* expected value and the integer by which the actual one is multiplied     *)
(* before it is compared.                                                   *)
EXTENDS SDVec

SphereFields == {"F", "T", "S", "U", "O", "E"}
DumbbellFields == {"Fb", "Db", "Ub", "Hb"}
Fields == SphereFields \cup DumbbellFields
Loads == {"F", "T", "S", "Fb", "Db"}          \* proportional to viscosity
Kind(f) == CASE f \in {"T", "O"} -> "axial"
             [] f \in {"S", "E"} -> "tensor"
             [] OTHER -> "vector"
(* Power of length in each field when velocities are held fixed *)
LengthPower(f) == CASE f \in {"F", "Fb", "Db"} -> 1
                    [] f \in {"T", "S"} -> 2
                    [] f \in {"U", "Ub", "Hb"} -> 0
                    [] OTHER -> -1

RECURSIVE Pow(_, _)
Pow(k, n) == IF n = 0 THEN 1 ELSE k*Pow(k, n-1)

(* Extra: powers of length hidden in the unit of viscosity (0 in reality)   *)
CONSTANT Extra
Power(f) == LengthPower(f) + (IF f \in Loads THEN Extra ELSE 0)

(* --- The operations.  An operation is a record with a field op. --------- *)

(* rotate: x -> m x / d, with m m^T = d^2 I, s the sign of det m *)
Rotated(o, kind, v) ==
    CASE kind = "vector" -> MatVec(o.m, v)
      [] kind = "axial" -> Times(o.s, MatVec(o.m, v))
      [] kind = "tensor" -> MatMul(MatMul(o.m, v), Transpose(o.m))

TimesK(kind, k, v) == IF kind = "tensor" THEN MatTimes(k, v) ELSE Times(k, v)
PlusK(kind, v, w) == IF kind = "tensor" THEN MatPlus(v, w) ELSE Plus(v, w)

(* Which particle of the old problem is the k-th of the new one *)
Source(o, f, k) ==
    CASE o.op = "spheres" /\ f \in SphereFields -> o.p[k]
      [] o.op = "dumbbells" /\ f \in DumbbellFields -> o.p[k]
      [] OTHER -> k

(* Expected value of particle k in field f, times Factor(o, f) *)
Expected(o, f, k, a, a2) ==
    LET v == a[f][Source(o, f, k)]
        kd == Kind(f)
    IN CASE o.op = "rotate" -> Rotated(o, kd, v)
         [] o.op = "swap" -> IF f \in {"Db", "Hb"} /\ k \in o.w
                             THEN Times(-1, v) ELSE v
         [] o.op = "length" -> IF Power(f) > 0 THEN TimesK(kd, Pow(o.k, Power(f)), v) ELSE v
         [] o.op = "shrink" -> IF Power(f) < 0 THEN TimesK(kd, Pow(o.k, -Power(f)), v) ELSE v
         [] o.op = "viscosity" -> IF f \in Loads THEN TimesK(kd, o.k, v) ELSE v
         [] o.op = "load" -> TimesK(kd, o.k, v)
         [] o.op = "combine" -> PlusK(kd, TimesK(kd, o.k, v), TimesK(kd, o.k2, a2[f][k]))
         [] OTHER -> v    \* translate, spheres, dumbbells, form, again, far

Factor(o, f) ==
    CASE o.op = "rotate" -> IF Kind(f) = "tensor" THEN o.d*o.d ELSE o.d
      [] o.op = "length" -> IF Power(f) < 0 THEN Pow(o.k, -Power(f)) ELSE 1
      [] o.op = "shrink" -> IF Power(f) > 0 THEN Pow(o.k, Power(f)) ELSE 1
      [] OTHER -> 1

(* Coarseness of a comparison of quantised numbers *)
Slack(o, f) ==
    CASE o.op = "rotate" -> IF Kind(f) = "tensor" THEN 3*o.d*o.d ELSE 2*o.d
      [] o.op \in {"length", "shrink"} -> Pow(o.k, Max2(Power(f), -Power(f)))
      [] o.op \in {"viscosity", "load"} -> Abs(o.k)
      [] o.op = "combine" -> Abs(o.k) + Abs(o.k2)
      [] OTHER -> 1

(* The number of particles that the law speaks about *)
Count(o, f, a) == IF o.op = "drop"
                  THEN IF f \in SphereFields THEN o.ns ELSE o.nd
                  ELSE Len(a[f])

Broken(o, f, a, a2, b, tol) ==
    LET n == Count(o, f, a)
        t == tol*Slack(o, f)
    IN \/ Len(b[f]) /= n
       \/ \E k \in 1..n :
            LET x == Expected(o, f, k, a, a2)
                y == TimesK(Kind(f), Factor(o, f), b[f][k])
            IN IF Kind(f) = "tensor" THEN ~NearM(x, y, t) ELSE ~NearV(x, y, t)

BrokenFields(o, a, a2, b, tol) == {f \in Fields : Broken(o, f, a, a2, b, tol)}
Law(o, a, a2, b, tol) == BrokenFields(o, a, a2, b, tol) = {}

(* Composition of two operations of the same sort, oldest first *)
Compose(o, q) ==
    CASE o.op = "rotate" -> [op |-> "rotate", m |-> MatMul(q.m, o.m),
                             d |-> o.d*q.d, s |-> o.s*q.s]
      [] o.op \in {"spheres", "dumbbells"} ->
            [op |-> o.op, p |-> [k \in DOMAIN q.p |-> o.p[q.p[k]]]]
      [] o.op \in {"length", "viscosity", "load"} ->
            [op |-> o.op, k |-> o.k*q.k]
      [] o.op = "swap" -> [op |-> "swap", w |-> (o.w \ q.w) \cup (q.w \ o.w)]
      [] OTHER -> q
=============================================================================
