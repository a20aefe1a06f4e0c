------------------------------- MODULE SDSolve -----------------------------
(* A session with the solver: a problem is posed, and then changed again    *)
(* and again (moved, turned, renumbered, rescaled, loaded differently,      *)
(* stated in another input form), being solved after each change.  Each     *)
(* action makes one change; the laws of SDLaws bind every answer to the one *)
(* before, and bind the latest answer to the first by the composition of    *)
(* all changes since.                                                       *)
(*                                                                          *)
(* Here the solver is a small exact stand-in over integers which has the    *)
(* structure of the real one (pairwise, covariant, spheres and two-bead     *)
(* dumbbells, prescribed velocities and strain rates): it makes the model   *)
(* finite and shows that the laws are consistent and can be met.            *)
(* SDSolveTrace checks the same laws on answers of the real solver, for     *)
(* sessions which are behaviours of this specification.                     *)
EXTENDS SDLaws, TLC, FiniteSets

CONSTANTS Problems,     \* problems to start from
          Ops,          \* changes to make
          MaxOps

VARIABLES prob, ans, ans0, net, hist
vars == <<prob, ans, ans0, net, hist>>

(* --- The stand-in solver ------------------------------------------------ *)
NS(p) == Len(p.ss)
ND(p) == Len(p.ds)
Half(v) == <<v[1] \div 2, v[2] \div 2, v[3] \div 2>>
(* Nodes: spheres, then first beads, then second beads *)
NNodes(p) == NS(p) + 2*ND(p)
NodeX(p, i) == IF i <= NS(p) THEN p.sx[i]
               ELSE IF i <= NS(p) + ND(p)
                    THEN Minus(p.dx[i-NS(p)], Half(p.dd[i-NS(p)]))
                    ELSE Plus(p.dx[i-NS(p)-ND(p)], Half(p.dd[i-NS(p)-ND(p)]))
NodeA(p, i) == IF i <= NS(p) THEN p.ss[i]
               ELSE IF i <= NS(p) + ND(p) THEN p.ds[i-NS(p)]
                    ELSE p.ds[i-NS(p)-ND(p)]
NodeU(p, i) == IF i <= NS(p) THEN p.U[i]
               ELSE IF i <= NS(p) + ND(p)
                    THEN Minus(p.Ub[i-NS(p)], p.Hb[i-NS(p)])
                    ELSE Plus(p.Ub[i-NS(p)-ND(p)], p.Hb[i-NS(p)-ND(p)])

PairF(p, i, j) ==
    LET r == Minus(NodeX(p, i), NodeX(p, j))
        rr == Dot(r, r)
        u == NodeU(p, j)
        a == NodeA(p, i) + NodeA(p, j)
        fromU == IF i = j THEN Times(a*a*a, u)
                 ELSE Plus(Times(-a*rr, u), Times(-a*Dot(r, u), r))
        fromO == IF i = j \/ j > NS(p) THEN V0
                 ELSE Times(a*rr, Cross(r, p.O[j]))
        fromE == IF i = j \/ j > NS(p) THEN V0
                 ELSE Times(a*rr, MatVec(p.E[j], r))
    IN Plus(fromU, Plus(fromO, fromE))
PairT(p, i, j) ==
    LET r == Minus(NodeX(p, i), NodeX(p, j))
        rr == Dot(r, r)
        a == NodeA(p, i) + NodeA(p, j)
        fromU == IF i = j THEN V0 ELSE Times(a*rr, Cross(r, NodeU(p, j)))
        fromO == IF j > NS(p) THEN V0
                 ELSE IF i = j THEN Times(a*a*a*a*a, p.O[j])
                 ELSE Times(-a*a*a, Plus(Times(rr, p.O[j]), Times(Dot(r, p.O[j]), r)))
        fromE == IF i = j \/ j > NS(p) THEN V0
                 ELSE Times(a*a*a, Cross(r, MatVec(p.E[j], r)))
    IN Plus(fromU, Plus(fromO, fromE))
PairS(p, i, j) ==
    LET r == Minus(NodeX(p, i), NodeX(p, j))
        rr == Dot(r, r)
        a == NodeA(p, i) + NodeA(p, j)
        fromU == IF i = j THEN Z3 ELSE MatTimes(a*rr, Sym6(r, NodeU(p, j)))
        fromO == IF i = j \/ j > NS(p) THEN Z3
                 ELSE MatTimes(a*a*a, Sym6(r, Cross(r, p.O[j])))
        fromE == IF j > NS(p) THEN Z3
                 ELSE IF i = j THEN MatTimes(a*a*a*a*a, p.E[j])
                 ELSE MatTimes(a*a*a*rr, p.E[j])
    IN MatPlus(fromU, MatPlus(fromO, fromE))

NodeF(p, i) == Times(p.mu, SumV([j \in 1..NNodes(p) |-> PairF(p, i, j)]))
NodeT(p, i) == Times(p.mu, SumV([j \in 1..NNodes(p) |-> PairT(p, i, j)]))
NodeS(p, i) == MatTimes(p.mu, SumM([j \in 1..NNodes(p) |-> PairS(p, i, j)]))

Solve(p) ==
    LET n == NS(p)
        m == ND(p)
    IN [F |-> [i \in 1..n |-> NodeF(p, i)],
        T |-> [i \in 1..n |-> NodeT(p, i)],
        S |-> [i \in 1..n |-> NodeS(p, i)],
        U |-> p.U, O |-> p.O, E |-> p.E,
        Fb |-> [i \in 1..m |-> Plus(NodeF(p, n+i), NodeF(p, n+m+i))],
        Db |-> [i \in 1..m |-> Minus(NodeF(p, n+m+i), NodeF(p, n+i))],
        Ub |-> p.Ub, Hb |-> p.Hb]

(* --- The changes -------------------------------------------------------- *)
Divides(d, v) == \A i \in 1..3 : v[i] % d = 0
Div(d, v) == <<v[1] \div d, v[2] \div d, v[3] \div d>>
DivM(d, m) == <<Div(d, m[1]), Div(d, m[2]), Div(d, m[3])>>
MapV(s, Op(_)) == [k \in DOMAIN s |-> Op(s[k])]

Possible(o, p) ==
    CASE o.op = "rotate" ->
           /\ \A k \in DOMAIN p.sx : Divides(o.d, MatVec(o.m, p.sx[k]))
           /\ \A k \in DOMAIN p.U : Divides(o.d, MatVec(o.m, p.U[k]))
           /\ \A k \in DOMAIN p.O : Divides(o.d, MatVec(o.m, p.O[k]))
           /\ \A k \in DOMAIN p.E : \A r \in 1..3 :
                Divides(o.d*o.d, Rotated(o, "tensor", p.E[k])[r])
           /\ \A f \in {"dx", "Ub", "Hb"} : \A k \in DOMAIN p[f] :
                Divides(o.d, MatVec(o.m, p[f][k]))
           /\ \A k \in DOMAIN p.dd : Divides(2*o.d, MatVec(o.m, p.dd[k]))
      [] o.op = "spheres" -> Len(o.p) = NS(p)
      [] o.op = "dumbbells" -> Len(o.p) = ND(p)
      [] o.op = "swap" -> o.w \subseteq 1..ND(p)
      [] o.op = "length" -> \A k \in DOMAIN p.O : Divides(o.k, p.O[k])
                             /\ \A r \in 1..3 : Divides(o.k, p.E[k][r])
      [] OTHER -> TRUE

Changed(o, p) ==
    CASE o.op = "rotate" ->
           LET v(x) == Div(o.d, MatVec(o.m, x))
               w(x) == Div(o.d, Rotated(o, "axial", x))
               t(x) == DivM(o.d*o.d, Rotated(o, "tensor", x))
           IN [p EXCEPT !.sx = MapV(@, v), !.U = MapV(@, v), !.O = MapV(@, w),
                        !.E = MapV(@, t), !.dx = MapV(@, v), !.dd = MapV(@, v),
                        !.Ub = MapV(@, v), !.Hb = MapV(@, v)]
      [] o.op = "translate" ->
           LET v(x) == Plus(x, o.t)
           IN [p EXCEPT !.sx = MapV(@, v), !.dx = MapV(@, v)]
      [] o.op = "spheres" ->
           LET g(s) == [k \in DOMAIN s |-> s[o.p[k]]]
           IN [p EXCEPT !.ss = g(@), !.sx = g(@), !.U = g(@), !.O = g(@), !.E = g(@)]
      [] o.op = "dumbbells" ->
           LET g(s) == [k \in DOMAIN s |-> s[o.p[k]]]
           IN [p EXCEPT !.ds = g(@), !.dx = g(@), !.dd = g(@), !.Ub = g(@), !.Hb = g(@)]
      [] o.op = "swap" ->
           LET g(s) == [k \in DOMAIN s |-> IF k \in o.w THEN Times(-1, s[k]) ELSE s[k]]
           IN [p EXCEPT !.dd = g(@), !.Hb = g(@)]
      [] o.op = "length" ->
           LET v(x) == Times(o.k, x)
               u(x) == Div(o.k, x)
               t(x) == DivM(o.k, x)
               s(x) == o.k*x
           IN [p EXCEPT !.ss = MapV(@, s), !.sx = MapV(@, v), !.ds = MapV(@, s),
                        !.dx = MapV(@, v), !.dd = MapV(@, v),
                        !.O = MapV(@, u), !.E = MapV(@, t)]
      [] o.op = "viscosity" -> [p EXCEPT !.mu = @*o.k]
      [] o.op = "load" ->
           LET v(x) == Times(o.k, x)
               t(x) == MatTimes(o.k, x)
           IN [p EXCEPT !.U = MapV(@, v), !.O = MapV(@, v), !.E = MapV(@, t),
                        !.Ub = MapV(@, v), !.Hb = MapV(@, v)]
      [] OTHER -> p        \* form, again: another statement of the same problem

Nop == [op |-> "none"]
Init == /\ prob \in Problems
        /\ ans = Solve(prob) /\ ans0 = ans
        /\ net = <<>> /\ hist = <<>>

Change(o) ==
    /\ Len(hist) < MaxOps
    /\ Possible(o, prob)
    /\ prob' = Changed(o, prob)
    /\ ans' = Solve(prob')
    /\ UNCHANGED ans0
    /\ hist' = Append(hist, o)
    /\ net' = IF net /= <<>> /\ net[Len(net)].op = o.op
              THEN [net EXCEPT ![Len(net)] = Compose(net[Len(net)], o)]
              ELSE Append(net, o)

Next == \E o \in Ops : Change(o)
Spec == Init /\ [][Next]_vars

(* --- Properties --------------------------------------------------------- *)
(* Each answer follows from the previous one by the law of the change       *)
Lawful == [][Law(hist'[Len(hist')], ans, ans, ans', 0)]_vars

(* Changes of one sort, however many, compose to one change of that sort    *)
Composes == Len(net) = 1 => Law(net[1], ans0, ans0, ans, 0)

(* Linearity: an answer plus itself *)
Adds == Law([op |-> "combine", k |-> 2, k2 |-> -1], ans, ans, ans, 0)
=============================================================================
