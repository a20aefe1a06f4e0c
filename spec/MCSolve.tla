------------------------------ MODULE MCSolve ------------------------------
EXTENDS SDSolve

Frame(m, d) == [op |-> "rotate", m |-> m, d |-> d,
                s |-> IF Det(m) > 0 THEN 1 ELSE -1]
SwapXY == <<<<0,1,0>>, <<1,0,0>>, <<0,0,1>>>>
Cycle  == <<<<0,1,0>>, <<0,0,1>>, <<1,0,0>>>>
MirrorX == <<<<-1,0,0>>, <<0,1,0>>, <<0,0,1>>>>
TurnZ  == <<<<0,-1,0>>, <<1,0,0>>, <<0,0,1>>>>
Turn3  == <<<<2,-1,2>>, <<2,2,-1>>, <<-1,2,2>>>>
Frames == {Frame(SwapXY, 1), Frame(Cycle, 1), Frame(MirrorX, 1),
           Frame(TurnZ, 1), Frame(Turn3, 3)}
Moves == {[op |-> "translate", t |-> <<1, 2, -3>>],
          [op |-> "translate", t |-> <<-20, 7, 11>>]}
Numbers == {[op |-> "spheres", p |-> <<2, 1, 3>>],
            [op |-> "spheres", p |-> <<2, 3, 1>>],
            [op |-> "dumbbells", p |-> <<2, 1>>],
            [op |-> "swap", w |-> {1}], [op |-> "swap", w |-> {2}],
            [op |-> "swap", w |-> {1, 2}]}
Scales == {[op |-> "length", k |-> 2], [op |-> "length", k |-> 3],
           [op |-> "viscosity", k |-> 2], [op |-> "viscosity", k |-> 3],
           [op |-> "load", k |-> 2], [op |-> "load", k |-> -1]}
Statements == {[op |-> "form", k |-> 0], [op |-> "again", k |-> 0]}

MCOps == Frames \cup Moves \cup Numbers \cup Scales \cup Statements
MCProblems == {
  [ss |-> <<1, 1, 2>>, sx |-> <<<<0,0,0>>, <<3,0,3>>, <<-3,3,0>>>>,
   U |-> <<<<3,0,-3>>, <<0,6,3>>, <<0,0,0>>>>,
   O |-> <<<<0,0,6>>, <<6,0,0>>, <<0,6,-6>>>>,
   E |-> <<<<<<18,0,0>>, <<0,-18,0>>, <<0,0,0>>>>,
           <<<<0,18,0>>, <<18,0,0>>, <<0,0,0>>>>, Z3>>,
   ds |-> <<1, 1>>, dx |-> <<<<3,3,3>>, <<0,-3,3>>>>,
   dd |-> <<<<6,0,0>>, <<0,6,-6>>>>,
   Ub |-> <<<<3,0,0>>, <<0,0,-3>>>>, Hb |-> <<<<0,3,0>>, <<3,0,3>>>>,
   mu |-> 1]}
=============================================================================
