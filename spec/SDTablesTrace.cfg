SPECIFICATION TraceSpec
CONSTANTS
    NearLists <- NoLists
    MidLists <- NoLists
    RatioLists <- NoLists
    NearOf <- NoValue
    MidOf <- NoValue
    FarOf <- NoValue
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
