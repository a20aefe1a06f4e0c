----------------------------- MODULE MCCompiled ----------------------------
EXTENDS SDCompiled
MCFacts == {"bead", "reach", "tables"}
MCPaths == {"free", "box", "run"}
=============================================================================
