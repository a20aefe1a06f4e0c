------------------------------- MODULE SDFar -------------------------------
(* The motion which the force, torque and stresslet of one particle cause   *)
(* at another, far from any others: the flow of the first with its finite-  *)
(* size corrections, averaged over the second.                              *)
(*                                                                          *)
(* Local directions: e points from the loaded particle to the moved one, f  *)
(* and g across; tensors are <<ee, ef, eg, fg, (ff-gg)/2>> as in SDPair.    *)
(* Velocities are in units of 1/(8 pi mu); every quantity is an exact       *)
(* fraction, written <<numerator, denominator>>, of whole separations r and *)
(* radii a (loaded) and b (moved).                                          *)
EXTENDS Integers, Sequences

Pow(x, n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN x ELSE IF n = 2 THEN x*x
             ELSE IF n = 3 THEN x*x*x ELSE IF n = 4 THEN x*x*x*x ELSE x*x*x*x*x

(* Response coefficients                                                    *)
UFx(r, a, b) == <<6*r*r - 2*(a*a + b*b), 3*Pow(r, 3)>>    \* velocity, force: along
UFy(r, a, b) == <<3*r*r + (a*a + b*b), 3*Pow(r, 3)>>      \* across
UT(r) == <<1, r*r>>                              \* velocity and torque, and so on
OTx(r) == <<1, Pow(r, 3)>>
OTy(r) == <<-1, 2*Pow(r, 3)>>
EFx(r, a, b) == <<2*(5*a*a + 3*b*b) - 10*r*r, 5*Pow(r, 4)>>
EFy(r, a, b) == <<-(5*a*a + 3*b*b), 5*Pow(r, 4)>>
USx(r, a, b) == <<15*r*r - 3*(3*a*a + 5*b*b), 5*Pow(r, 4)>>
USy(r, a, b) == <<2*(3*a*a + 5*b*b), 5*Pow(r, 4)>>
ET(r) == <<3, 2*Pow(r, 3)>>
OS(r) == <<3, Pow(r, 3)>>
ESx(r, a, b) == <<36*(a*a + b*b) - 30*r*r, 5*Pow(r, 5)>>
ESy(r, a, b) == <<15*r*r - 24*(a*a + b*b), 5*Pow(r, 5)>>
ESz(r, a, b) == <<6*(a*a + b*b), 5*Pow(r, 5)>>

(* The terms (fraction, load) of every component of the response            *)
Response(r, a, b, l) ==
    [U |-> << << <<UFx(r, a, b), l.F[1]>>, <<USx(r, a, b), l.S[1]>> >>,
              << <<UFy(r, a, b), l.F[2]>>, <<UT(r), l.T[3]>>, <<USy(r, a, b), l.S[2]>> >>,
              << <<UFy(r, a, b), l.F[3]>>, <<UT(r), -l.T[2]>>, <<USy(r, a, b), l.S[3]>> >> >>,
     O |-> << << <<OTx(r), l.T[1]>> >>,
              << <<OTy(r), l.T[2]>>, <<UT(r), l.F[3]>>, <<OS(r), l.S[3]>> >>,
              << <<OTy(r), l.T[3]>>, <<UT(r), -l.F[2]>>, <<OS(r), -l.S[2]>> >> >>,
     E |-> << << <<EFx(r, a, b), l.F[1]>>, <<ESx(r, a, b), l.S[1]>> >>,
              << <<EFy(r, a, b), l.F[2]>>, <<ET(r), -l.T[3]>>, <<ESy(r, a, b), l.S[2]>> >>,
              << <<EFy(r, a, b), l.F[3]>>, <<ET(r), l.T[2]>>, <<ESy(r, a, b), l.S[3]>> >>,
              << <<ESz(r, a, b), l.S[4]>> >>,
              << <<ESz(r, a, b), l.S[5]>> >> >>]
(* A particle's own response                                                *)
Own(a, l) ==
    [U |-> [j \in 1..3 |-> << << <<4, 3*a>>, l.F[j]>> >>],
     O |-> [j \in 1..3 |-> << << <<1, Pow(a, 3)>>, l.T[j]>> >>],
     E |-> [j \in 1..5 |-> << << <<6, 5*Pow(a, 3)>>, l.S[j]>> >>]]

(* A sum of terms, to six digits (without large intermediate numbers)       *)
Six(n, d) == (n \div d)*1000000 + (((n % d)*1000) \div d)*1000
             + ((((n % d)*1000) % d)*1000) \div d
RECURSIVE Digits(_, _)
Digits(terms, n) == IF n = 0 THEN 0
    ELSE Six(terms[n][1][1]*terms[n][2], terms[n][1][2]) + Digits(terms, n - 1)
Value(terms) == Digits(terms, Len(terms))
=============================================================================
