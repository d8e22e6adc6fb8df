SPECIFICATION Spec
CONSTANTS
 Rigs <- RigsBig
 Pts <- PtsBig
 Vs <- VsBig
 Turns <- TurnsBig
 MinPts = 4
 Steps = 16
 Pick <- One
INVARIANTS Gradients ExactStays Emit
CHECK_DEADLOCK FALSE
