SPECIFICATION Spec
CONSTANTS
 Qs <- QsSmall
 Cs <- CsSmall
 Pts <- PtsSmall
 Turns <- TurnsSmall
 Shifts <- ShiftsSmall
 Disps <- DispsSmall
 Wrong <- WrongSmall
 MaxMarks = 3
 Steps = 4
 Pick <- All
INVARIANTS KeepsTruth MovesOk FrameFree OrderFree Emit
CHECK_DEADLOCK FALSE
