SPECIFICATION TraceSpec
CONSTANTS Radii = {1}
    Places = {}
    Cuts = {}
    Boxes = {}
    Far <- NoFar
    Stokes <- NoFar
    Near <- NoNear
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
