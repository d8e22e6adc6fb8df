SPECIFICATION Spec
CONSTANTS
 Rigs <- RigsBig
 Pts <- PtsBig
 Vs <- VsBig
 Turns <- TurnsBig
 MinPts = 1
 Steps = 8
 Pick <- One
INVARIANTS Gradients ExactStays Emit
CHECK_DEADLOCK FALSE
