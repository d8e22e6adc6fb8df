SPECIFICATION Spec
CONSTANTS
 Qs <- QsBig
 Ts <- TsBig
 Ds <- DsBig
 Pts <- PtsBig
 Vs <- VsBig
 Steps = 6
 Pick <- One
INVARIANTS Constraint Coplanar Singular OfInverse TwistedSame OneInFront LossInRange Emit
CHECK_DEADLOCK FALSE
