------------------------------- MODULE MCStep ------------------------------
(* SDStep with laws of motion whose outcome is known in closed form.        *)
(*                                                                          *)
(* law "power": velocity (t^k), position must be the integral to the order  *)
(* of the scheme; "growth": velocity equal to position; "box": arbitrary    *)
(* velocities of each frame, in a sheared box, compared with a particle     *)
(* that is never wrapped; "spin": arbitrary angular velocities; "plane".    *)
EXTENDS SDStep
CONSTANTS Frames
VARIABLES law, ghost, ghostprev, turns
vars == <<svars, law, ghost, ghostprev, turns>>

U == 288                  \* unit of the power laws
G == 13824                \* 24^3
K == 3456                 \* so that every division is exact
Side == 48*K              \* box side
Rate == 12*K              \* shear per frame, along axis 1, of axis 3

NoBox == [on |-> FALSE]
ABox == [on |-> TRUE, L |-> <<Side, Side, Side>>, flow |-> 1, grad |-> 3,
         coarse |-> K, slack |-> 2*K]
Config(scheme, plane, box, every, each, ang) ==
    [scheme |-> scheme, dn |-> 1, dd |-> 1, plane |-> plane, box |-> box,
     every |-> every, each |-> each, first |-> 0, kinds |-> <<"c", "s">>,
     angle |-> ang, norm |-> 1]
Quarter == [c |-> 0, s |-> 1, h |-> 1]
Schemes == {"euler", "ab2", "rk4"}

Pow(n, k) == CASE k = 0 -> 1 [] k = 1 -> n [] k = 2 -> n*n [] OTHER -> n*n*n
Steps == {-36*K, 0, 12*K, 60*K}
NoFlow == [U |-> V0, O |-> V0, E |-> Z3, c |-> V0, d |-> 2]
(* Simple shear: velocity Rate/Side*z along x, that is O = (0, g/2, 0),     *)
(* E_xz = E_zx = g/2                                                        *)
ShearFlow == [U |-> V0, O |-> <<0, 1, 0>>,
              E |-> <<<<0,0,1>>, <<0,0,0>>, <<1,0,0>>>>, c |-> V0,
              d |-> 8]           \* Rate/Side = 1/4
TheFlow == IF law.name = "box" THEN ShearFlow ELSE NoFlow
Tilt(h) == (Rate*h) \div 2        \* after h half frames

Init ==
    /\ \E s \in Schemes :
        \/ \E k \in 0..3 : /\ law = [name |-> "power", k |-> k]
                           /\ Start(Config(s, FALSE, NoBox, 2, FALSE, Quarter),
                                    <<V0, V0>>, <<>>)
        \/ /\ law = [name |-> "growth", k |-> 0]
           /\ Start(Config(s, FALSE, NoBox, 1, TRUE, Quarter),
                    <<<<G, 0, -G>>, <<2*G, G, 0>>>>, <<>>)
        \/ /\ law = [name |-> "box", k |-> 0]
           /\ Start(Config(s, FALSE, ABox, 3, TRUE, Quarter),
                    <<<<0, 0, 12*K>>, <<4, 0, 0>>>>, <<>>)
        \/ /\ law = [name |-> "spin", k |-> 0]
           /\ Start(Config(s, FALSE, NoBox, 2, TRUE, Quarter),
                    <<V0, V0>>, <<<< <<1,0,0>>, <<0,0,1>> >>>>)
        \/ \E p \in BOOLEAN : /\ law = [name |-> "plane", k |-> 0]
           /\ Start(Config(s, p, NoBox, 1, FALSE, Quarter), <<V0, V0>>, <<>>)
    /\ ghost = at[1] /\ ghostprev = V0 /\ turns = V0

(* Velocities of the points at evaluation k, by law. In the box the         *)
(* relative velocity is that of the frame, whichever image is looked at.    *)
Velocity(k, r) ==
    [p \in DOMAIN at |->
        CASE law.name = "power" ->
                LET v == (U*Pow(Now(k), law.k)) \div Pow(2, law.k)
                IN <<v, -v, 2*v>>
          [] law.name = "growth" -> Place(k)[p]
          [] law.name = "box" ->
                IF p = 1 THEN Carried("c", <<r, 0, r>>, Place(k)[p], ShearFlow)
                ELSE V0
          [] law.name = "plane" -> <<r, 2*r, -r>>
          [] OTHER -> V0]
Rolling(r) == IF law.name = "spin" THEN <<r>> ELSE <<>>

Rolls == {V0, <<1,0,0>>, <<0,-1,0>>, <<0,0,2>>}
Evaluation ==
    /\ frame < Frames
    /\ LET k == Len(vels) + 1 IN
       \E r \in (IF law.name \notin {"box", "plane"} THEN {0}
                ELSE IF law.name = "box" /\ k > 1 THEN {vels[1][1][3]} ELSE Steps) :
       \E w \in (IF law.name /= "spin" THEN {V0}
                ELSE IF k > 1 THEN {spins[1][1]}
                ELSE IF cfg.scheme = "ab2" /\ frame > 0 THEN {turned[1]}
                ELSE Rolls) :
          Evaluate(k, Velocity(k, r), Rolling(w), <<0>>)
    /\ UNCHANGED <<law, ghost, ghostprev, turns>>

(* The particle that is never wrapped: same relative velocities, flow at    *)
(* its own places.                                                          *)
GhostVel(k) == Plus(vels[k][1], Linear(ShearFlow, Minus(ghost, at[1])))
GhostTarget ==
    LET g == Blend([k \in DOMAIN vels |-> GhostVel(k)], ghostprev)
    IN [c \in 1..3 |-> ghost[c] + RoundDiv(g[c], Under)]
Wrapped(x, tilt) ==
    LET nz == RoundDiv(x[3], Side)
        y == [x EXCEPT ![3] = @ - nz*Side, ![1] = @ - nz*tilt]
        t == tilt % Side
        lean == K*RoundDiv((t \div K)*(y[3] \div K), 48)
        nx == RoundDiv(y[1] - lean, Side)
        ny == RoundDiv(y[2], Side)
    IN [y EXCEPT ![1] = @ - nx*Side, ![2] = @ - ny*Side]
Finish ==
    /\ Len(vels) = Evaluations
    /\ LET y == [p \in DOMAIN at |-> IF p = 1 /\ Boxed
                                     THEN Wrapped(Target(1), Tilt(2*(frame + 1)))
                                     ELSE Target(p)]
           m == [p \in DOMAIN marks |-> <<Marker(p, 1), Marker(p, 2)>>]
       IN Advance(y, m, TheFlow)
    /\ IF law.name = "box" THEN ghost' = GhostTarget /\ ghostprev' = GhostVel(1)
       ELSE UNCHANGED <<ghost, ghostprev>>
    /\ IF law.name = "spin" THEN turns' = Plus(turns, Spin(1)) ELSE UNCHANGED turns
    /\ UNCHANGED law
Next == Evaluation \/ Finish
Spec == Init /\ [][Next]_vars

(* Order of the schemes *)
Integral(k, f) == (U*Pow(f, k)*f) \div (k+1)
Between == vels = <<>>
Accurate ==
    law.name = "power" /\ Between =>
        LET x == at[1][1] IN
        /\ cfg.scheme = "rk4" => x = Integral(law.k, frame)
        /\ cfg.scheme = "ab2" /\ law.k <= 1 =>
              x = Integral(law.k, frame)
                  - (IF law.k = 1 /\ frame > 0 THEN U \div 2 ELSE 0)
        /\ cfg.scheme = "euler" /\ law.k = 0 => x = Integral(0, frame)
        /\ cfg.scheme = "euler" /\ law.k = 1 => x = (U*frame*(frame-1)) \div 2
        /\ at[1][2] = -x /\ at[2] = at[1]
Grown ==
    law.name = "growth" /\ Between =>
        LET n == at[1][1] IN
        /\ cfg.scheme = "rk4" => n = (G \div Pow(24, frame))*Pow(65, frame)
        /\ cfg.scheme = "euler" => n = G*(2^frame)
        /\ cfg.scheme = "ab2" =>
             n = CASE frame = 0 -> G [] frame = 1 -> 2*G
                   [] frame = 2 -> (9*G) \div 2 [] OTHER -> (41*G) \div 4
        /\ at[1][3] = -n /\ at[2][1] = 2*n
(* Images *)
SameUpToImages ==
    law.name = "box" /\ Between =>
        /\ LatticeShift(Minus(at[1], ghost), Tilt(2*frame), 0)
        /\ Inside(at[1], Tilt(2*frame))
        /\ at[2] = <<4, 0, 0>>
(* Rotation *)
Rigid == law.name = "spin" =>
    /\ Dot(marks[1][1], marks[1][1]) = 1 /\ Dot(marks[1][2], marks[1][2]) = 1
    /\ Dot(marks[1][1], marks[1][2]) = 0
RightHanded ==
    law.name = "spin" /\ Between /\ turns[2] = 0 /\ turns[3] = 0 /\ frame = 1 =>
        marks[1][2] = (CASE turns[1] = 0 -> <<0,0,1>> [] turns[1] = 1 -> <<0,-1,0>>
                         [] OTHER -> marks[1][2])
Plane == law.name = "plane" /\ cfg.plane => \A p \in DOMAIN at : at[p][2] = 0
(* Far field *)
Refresh ==
    /\ Len(vels) > 0 => /\ used[1] <= frame
                        /\ used[1] % cfg.every = 0 \/ used[1] = cfg.first
                        /\ frame - used[1] < cfg.every
                        /\ used[2] > 1 => cfg.each /\ used = <<frame, Len(vels)>>
                        /\ frame % cfg.every = 0 => used[1] = frame
=============================================================================
