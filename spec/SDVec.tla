------------------------------- MODULE SDVec -------------------------------
(* Small vectors and tensors of integers.                                   *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y
Near(x, y, tol) == Abs(x - y) <= tol

V0 == <<0, 0, 0>>
I3 == <<<<1,0,0>>, <<0,1,0>>, <<0,0,1>>>>

Dot(a, b) == a[1]*b[1] + a[2]*b[2] + a[3]*b[3]
Cross(a, b) == <<a[2]*b[3] - a[3]*b[2],
                 a[3]*b[1] - a[1]*b[3],
                 a[1]*b[2] - a[2]*b[1]>>
Plus(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
Minus(a, b) == <<a[1]-b[1], a[2]-b[2], a[3]-b[3]>>
Times(k, a) == <<k*a[1], k*a[2], k*a[3]>>
MatVec(m, v) == <<Dot(m[1], v), Dot(m[2], v), Dot(m[3], v)>>
Transpose(m) == <<<<m[1][1], m[2][1], m[3][1]>>,
                  <<m[1][2], m[2][2], m[3][2]>>,
                  <<m[1][3], m[2][3], m[3][3]>>>>
MatMul(a, b) == LET t == Transpose(b) IN
    <<<<Dot(a[1],t[1]), Dot(a[1],t[2]), Dot(a[1],t[3])>>,
      <<Dot(a[2],t[1]), Dot(a[2],t[2]), Dot(a[2],t[3])>>,
      <<Dot(a[3],t[1]), Dot(a[3],t[2]), Dot(a[3],t[3])>>>>
MatPlus(a, b) == <<Plus(a[1],b[1]), Plus(a[2],b[2]), Plus(a[3],b[3])>>
MatTimes(k, m) == <<Times(k,m[1]), Times(k,m[2]), Times(k,m[3])>>
Det(m) == Dot(m[1], Cross(m[2], m[3]))
(* Six times the symmetric traceless part of a (x) b *)
Sym6(a, b) == [i \in 1..3 |-> [j \in 1..3 |->
    3*(a[i]*b[j] + a[j]*b[i]) - (IF i = j THEN 2*Dot(a, b) ELSE 0)]]

NearV(a, b, tol) == \A i \in 1..3 : Near(a[i], b[i], tol)
NearM(a, b, tol) == \A i \in 1..3 : NearV(a[i], b[i], tol)

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE SumV(_)
SumV(s) == IF s = <<>> THEN V0 ELSE Plus(Head(s), SumV(Tail(s)))
Z3 == <<V0, V0, V0>>
RECURSIVE SumM(_)
SumM(s) == IF s = <<>> THEN Z3 ELSE MatPlus(Head(s), SumM(Tail(s)))
=============================================================================
