SPECIFICATION Spec
CONSTANTS Radii = {1, 2}
    Places <- SomePlaces
    Cuts <- SomeCuts
    Boxes <- SomeBoxes
    Far <- SomeFar
    Stokes <- SomeStokes
    Near <- SomeNear
INVARIANTS NearestIsNearest OffIsFar PairByPair SameForImages Monotone
CHECK_DEADLOCK FALSE
