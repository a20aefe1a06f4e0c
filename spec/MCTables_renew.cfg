SPECIFICATION Spec
CONSTANTS
    NearLists <- FewNear
    MidLists <- FewMid
    RatioLists <- FewRatios
    NearOf <- MCNearOf
    MidOf <- MCMidOf
    FarOf <- MCFarOf
INVARIANTS InOrder BothViews RightEntries Again
PROPERTY Complete
CHECK_DEADLOCK FALSE
