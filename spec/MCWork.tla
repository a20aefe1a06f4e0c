------------------------------- MODULE MCWork ------------------------------
EXTENDS SDWork
SomeSpeeds == {-2, 0, 1}
=============================================================================
