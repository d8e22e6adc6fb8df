SPECIFICATION Spec
CONSTANTS
 Qs <- QsAll
 Ts <- TsAll
 Ds <- D1
 Pts <- PtsOne
 Vs <- VsOne
 Steps = 1
 Pick <- All
INVARIANTS Constraint Coplanar Singular OfInverse TwistedSame OneInFront LossInRange Emit
CHECK_DEADLOCK FALSE
