------------------------------ MODULE MCPlace ------------------------------
EXTENDS SDPlace
CONSTANT Case
MCBox == CASE Case = "spheres" -> [lo |-> <<0, 0, 0>>, hi |-> <<6, 1, 5>>]
           [] Case = "dumbbells" -> [lo |-> <<-1, 0, 0>>, hi |-> <<4, 0, 4>>]
           [] OTHER -> [lo |-> <<0, 0, 0>>, hi |-> <<8, 0, 7>>]
MCPresent == CASE Case = "spheres" -> <<[at |-> <<2, 0, 1>>, r |-> 2]>>
               [] Case = "dumbbells" -> <<[at |-> <<0, 0, 0>>, r |-> 1], [at |-> <<9, 0, 9>>, r |-> 1]>>
               [] OTHER -> <<[at |-> <<0, 0, 7>>, r |-> 2]>>
MCRadii == CASE Case = "spheres" -> <<1, 2, 1>> [] OTHER -> <<1, 1>>
MCWays == {<<1, 0, 0>>, <<-1, 0, 0>>, <<0, 0, 1>>, <<0, 0, -1>>}
=============================================================================
