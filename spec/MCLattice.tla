----------------------------- MODULE MCLattice -----------------------------
EXTENDS SDLattice, TLC
N3 == {<<1, 0, 0>>, <<0, -1, 1>>, <<-1, 1, -1>>}
MCOps == [op : {"image", "dumbbell"}, k : {1, 2}, n : N3]
         \cup [op : {"bead"}, k : {1, 2}, b : {1, 2}, n : N3]
         \cup [op : {"origin"}, t : {<<1, -2, 3>>, <<-7, 0, 0>>}]
         \cup [op : {"whole"}, m : {1, -1, 2}]
         \cup [op : {"double"}, ax : 1..3]
MCStarts ==
    {[L |-> <<5, 6, 7>>, o |-> <<-2, 0, 1>>, flow |-> f[1], grad |-> f[2], tilt |-> t,
      sp |-> <<<<0, 1, 2>>, <<3, 3, 3>>>>,
      db |-> <<<< <<1, 4, 0>>, <<2, 2, 6>> >>>>]
     : f \in {<<1, 3>>, <<2, 1>>, <<3, 2>>}, t \in {0, 2, -3}}
=============================================================================
