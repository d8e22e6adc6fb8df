SPECIFICATION Spec
CONSTANTS
 Qs <- QsSmall
 Ts <- TsSmall
 Pts <- PtsSmall
 Turns <- TurnsSmall
 MinLen = 1
 MaxLen = 3
 Steps = 4
 Pick <- All
INVARIANTS Constraint Seen RankBound NoBaseline Emit
CHECK_DEADLOCK FALSE
