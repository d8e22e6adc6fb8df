SPECIFICATION Spec
CONSTANTS
 Vs <- VsBig
 Starts <- StartsBig
 Qs <- QsBig
 Steps = 4
 Pick <- One
INVARIANTS ToRay Closer OnTarget Emit
CHECK_DEADLOCK FALSE
