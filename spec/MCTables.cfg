SPECIFICATION OnceSpec
CONSTANTS
    NearLists <- MCLong
    MidLists <- MCLongMid
    RatioLists <- MCRatios
    NearOf <- MCNearOf
    MidOf <- MCMidOf
    FarOf <- MCFarOf
INVARIANTS InOrder BothViews RightEntries Again
PROPERTY Complete
CHECK_DEADLOCK FALSE
