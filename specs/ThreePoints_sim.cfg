SPECIFICATION Spec
CONSTANTS
 Qs <- QsBig
 Cs <- CsBig
 Pts <- PtsBig
 Triples <- TriplesBig
 Turns <- TurnsBig
 Shifts <- ShiftsBig
 Wrong <- WrongBig
 Steps = 12
 Pick <- One
INVARIANTS Seen Agree Congruent Emit
CHECK_DEADLOCK FALSE
