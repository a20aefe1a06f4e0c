------------------------------ MODULE SDInputs -----------------------------
(* The supplied forces and flows.  Lengths are in thousandths, everything   *)
(* else in ten-thousandths of its unit; angles are in twenty-fourths of a   *)
(* turn.                                                                    *)
EXTENDS SDVec

(***************************************************************************)
(* Numbers                                                                  *)
(***************************************************************************)
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + (n \div x)) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
Root(n) == IF n = 0 THEN 0 ELSE Newton(n, 46341)
(* The length of a vector, in thousandths of its unit                       *)
Length(v) == LET n == Dot(v, v)
                 s == Root(n)
             IN IF s = 0 THEN 0 ELSE 1000*s + ((1000*(n - s*s)) \div (2*s))
Rounded(x, d) == (x + (d \div 2)) \div d
(* exp(-y), y in hundred-thousandths, at most 8                             *)
Unit == 40000
Squared(q) == Rounded(q*q, Unit)
Decay(y) ==
    IF y <= 0 THEN 10000 ELSE
    LET z == Rounded(y, 80)            \* y/32 in units of 1/Unit
        t2 == Rounded(z*z, 2*Unit)
        t3 == Rounded(t2*z, 3*Unit)
        t4 == Rounded(t3*z, 4*Unit)
        q == Unit - z + t2 - t3 + t4
    IN Rounded(Squared(Squared(Squared(Squared(Squared(q))))), 4)
Quarter == <<0, 2588, 5000, 7071, 8660, 9659, 10000>>
Sine(k) == LET j == k % 24 IN
    IF j <= 6 THEN Quarter[j+1] ELSE IF j <= 12 THEN Quarter[13-j]
    ELSE IF j <= 18 THEN -Quarter[j-11] ELSE -Quarter[25-j]
Cosine(k) == Sine(k + 6)

(***************************************************************************)
(* Repulsion between spheres and beads x (positions) of radii a, in units   *)
(* of its strength; t is its decay                                          *)
(***************************************************************************)
Repels(x, a, j, k) ==
    LET v == Minus(x[k], x[j]) IN
    /\ j # k
    /\ \A c \in 1..3 : Abs(v[c]) < 5000
    /\ 10*Length(v) < 11000*(a[j] + a[k])
Gap(x, a, j, k) == ((200*Length(Minus(x[k], x[j]))) \div (a[j] + a[k])) - 200000
Strength(x, a, t, j, k) ==
    (((2*a[j]*a[k]) \div (a[j] + a[k])) * Decay(t*Gap(x, a, j, k))) \div 1000
(* on j, away from k                                                        *)
Push(x, a, t, j, k) ==
    IF ~Repels(x, a, j, k) THEN V0
    ELSE LET v == Minus(x[j], x[k])
             r == Length(v) \div 1000
             m == Strength(x, a, t, j, k)
         IN <<(m*v[1]) \div r, (m*v[2]) \div r, (m*v[3]) \div r>>
Pushes(x, a, t, j) == SumV([k \in DOMAIN x |-> Push(x, a, t, j, k)])

(* Beads of a dumbbell are at its centre minus and plus half its vector     *)
Ends(db) == <<[c \in 1..3 |-> db.at[c] - db.half[c]], [c \in 1..3 |-> db.at[c] + db.half[c]]>>
Nodes(sp, db) == [j \in 1..(Len(sp) + 2*Len(db)) |->
    IF j <= Len(sp) THEN sp[j]
    ELSE IF j <= Len(sp) + Len(db) THEN Ends(db[j - Len(sp)])[1]
    ELSE Ends(db[j - Len(sp) - Len(db)])[2]]
Radii(as, ad) == as \o ad \o ad

(***************************************************************************)
(* A spring in a dumbbell: the difference of the forces on its beads        *)
(***************************************************************************)
Spring(v, natural, stiffness) ==
    LET r == Length(v) \div 100 IN
    [c \in 1..3 |-> -stiffness*(10*v[c] - ((natural*100000*v[c]) \div r))]

(***************************************************************************)
(* Shear flows                                                              *)
(***************************************************************************)
(* The velocity gradient made of a strain rate and a rotation               *)
Gradient(e, o) == <<
    <<e[1][1], e[1][2] - o[3], e[1][3] + o[2]>>,
    <<e[2][1] + o[3], e[2][2], e[2][3] - o[1]>>,
    <<e[3][1] - o[2], e[3][2] + o[1], e[3][3]>>>>
Simple(flow, grad, rate) == [i \in 1..3 |-> [j \in 1..3 |->
    IF i = flow /\ j = grad THEN rate ELSE 0]]
Axes(unused, transposed) ==
    LET p == IF unused = 1 THEN <<1, 3>> ELSE <<1, 2>>
    IN IF transposed THEN <<p[2], p[1]>> ELSE p
(* s: [num, den (amplitude), period, phase, f2 (twice the frame), d (step in *)
(* twenty-fourths of the period)]                                           *)
Angle(s) == ((s.f2*s.d) \div 2) + s.phase
Amount(s) == (s.num*Sine(Angle(s))) \div s.den
Rate(s) == (s.num*((62832*Cosine(Angle(s))) \div 10000)) \div (s.den*s.period)

(***************************************************************************)
(* Particles pushed about one at a time                                     *)
(***************************************************************************)
CONSTANTS Places, Sizes, Decays
VARIABLES x, a, t
vars == <<x, a, t>>
Init == x = <<>> /\ a = <<>> /\ t \in Decays
Add == /\ Len(x) < 3
       /\ \E p \in Places, s \in Sizes :
            /\ \A j \in DOMAIN x : x[j] # p
            /\ x' = Append(x, p) /\ a' = Append(a, s)
       /\ UNCHANGED t
Spec == Init /\ [][Add]_vars
Pairs == {p \in (DOMAIN x) \X (DOMAIN x) : p[1] # p[2]}
(* (floors make signs differ by one)                                        *)
Opposite == \A p \in Pairs :
    NearV(Push(x, a, t, p[1], p[2]), Times(-1, Push(x, a, t, p[2], p[1])), 1)
Apart == \A p \in Pairs : Repels(x, a, p[1], p[2]) =>
    Dot(Push(x, a, t, p[1], p[2]), Minus(x[p[1]], x[p[2]])) > 0
Central == \A p \in Pairs :
    LET f == Push(x, a, t, p[1], p[2])
        c == Cross(f, Minus(x[p[1]], x[p[2]]))
    IN \A k \in 1..3 : Abs(c[k]) <= 10000
NothingElse == \A p \in Pairs : ~Repels(x, a, p[1], p[2]) =>
    Push(x, a, t, p[1], p[2]) = V0
Balanced == LET s == SumV([j \in DOMAIN x |-> Pushes(x, a, t, j)])
            IN NearV(s, V0, 12)
(* Closer pairs push harder, overlapping ones alike                         *)
Weaker == \A p, q \in Pairs :
    (/\ Repels(x, a, p[1], p[2]) /\ Repels(x, a, q[1], q[2])
     /\ a[p[1]] = a[q[1]] /\ a[p[2]] = a[q[2]]
     /\ Gap(x, a, p[1], p[2]) <= Gap(x, a, q[1], q[2]))
    => Strength(x, a, t, p[1], p[2]) >= Strength(x, a, t, q[1], q[2])
(* Flows: sums of angles, so that the amount is the integral of the rate;   *)
(* a turn later everything is as before                                     *)
ASSUME \A k \in 0..23 : Near(Sine(k + 1) - Sine(k - 1 + 24), (2*2588*Cosine(k)) \div 10000, 2)
ASSUME \A k \in 0..23 : Near((Sine(k)*Sine(k) + Cosine(k)*Cosine(k)) \div 10000, 10000, 2)
ASSUME \A k \in 0..23 : Sine(k + 12) = -Sine(k)
ASSUME \A y \in {0, 50000, 100000, 230259, 400000} :
    Near(Decay(y), CASE y = 0 -> 10000 [] y = 50000 -> 6065 [] y = 100000 -> 3679
                     [] y = 230259 -> 1000 [] OTHER -> 183, 4)
ASSUME \A i, j \in 1..3 : i # j => LET g == Simple(i, j, 20)
       e == [r \in 1..3 |-> [c \in 1..3 |-> (g[r][c] + g[c][r]) \div 2]]
       o == <<(g[3][2] - g[2][3]) \div 2, (g[1][3] - g[3][1]) \div 2, (g[2][1] - g[1][2]) \div 2>>
       IN Gradient(e, o) = g
=============================================================================
