----------------------------- MODULE MCProgress ----------------------------
EXTENDS SDProgress
=============================================================================
