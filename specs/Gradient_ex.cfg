SPECIFICATION Spec
CONSTANTS
 Vs <- VsSmall
 Starts <- StartsSmall
 Qs <- QsSmall
 Steps = 2
 Pick <- All
INVARIANTS ToRay Closer OnTarget Emit
CHECK_DEADLOCK FALSE
