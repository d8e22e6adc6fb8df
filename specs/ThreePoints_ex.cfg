SPECIFICATION Spec
CONSTANTS
 Qs <- QsSmall
 Cs <- CsSmall
 Pts <- PtsSmall
 Triples <- TriplesSmall
 Turns <- TurnsSmall
 Shifts <- ShiftsSmall
 Wrong <- WrongSmall
 Steps = 1
 Pick <- All
INVARIANTS Seen Agree Congruent Emit
CHECK_DEADLOCK FALSE
