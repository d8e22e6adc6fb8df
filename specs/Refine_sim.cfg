SPECIFICATION Spec
CONSTANTS
 Qs <- QsBig
 Cs <- CsBig
 Pts <- PtsBig
 Turns <- TurnsBig
 Shifts <- ShiftsBig
 Disps <- DispsBig
 Wrong <- WrongBig
 MaxMarks = 9
 Steps = 22
 Pick <- One
INVARIANTS KeepsTruth MovesOk FrameFree OrderFree Emit
CHECK_DEADLOCK FALSE
