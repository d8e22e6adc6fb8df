SPECIFICATION Spec
CONSTANTS
 Qs <- QsSim
 Ts <- TsBig
 Ds <- DsBig
 Factors <- FBig
 Steps = 6
 Pick <- One
INVARIANTS TypeOK InverseIsInverse InverseTwice AxisFixed PowersAdd Proper HalfTurn Emit
CHECK_DEADLOCK FALSE
