SPECIFICATION Spec
CONSTANTS
 Qs <- QsBig
 Ts <- TsBig
 Pts <- PtsBig
 Turns <- TurnsBig
 MinLen = 8
 MaxLen = 12
 Steps = 18
 Pick <- One
INVARIANTS Constraint Seen RankBound NoBaseline Emit
CHECK_DEADLOCK FALSE
