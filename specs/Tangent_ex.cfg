SPECIFICATION Spec
CONSTANTS
 Qs <- QsAll
 Ts <- TsOne
 Ds <- D1
 Factors <- F2
 Steps = 1
 Pick <- All
INVARIANTS TypeOK InverseIsInverse InverseTwice AxisFixed PowersAdd Proper HalfTurn Emit
CHECK_DEADLOCK FALSE
