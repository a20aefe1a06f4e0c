------------------------------- MODULE MCNear ------------------------------
EXTENDS SDNear, TLC
At(x, a) == [x |-> x, a |-> a]
SomePlaces ==
    {<<At(<<0, 0, 0>>, r), At(<<x, y, 0>>, 1), At(<<3, 0, z>>, 1)>> :
        r \in Radii, x \in {2, 4, 9}, y \in {0, 3}, z \in {3, 4, 11}}
SomeCuts == {<<2, 1>>, <<3, 2>>, <<9, 4>>}
SomeBoxes == {NoBox}
    \union {[on |-> TRUE, L |-> <<14, 13, 14>>, flow |-> 1, grad |-> 3, tilt |-> t]
            : t \in {0, 5, -7}}
Numbered(S(_), n) == [j \in 1..n |-> S(j)]
SomeFar(p) == [j \in DOMAIN p |-> 10*p[j].a + p[1].x[1] + p[2].x[1]]
SomeStokes(p) == [j \in DOMAIN p |-> p[j].a]
SomeNear(p, b, k) == [j \in DOMAIN p |-> IF j = k[1] THEN 100*k[2]
                      ELSE IF j = k[2] THEN -100*k[1] - 7 ELSE 0]
=============================================================================
