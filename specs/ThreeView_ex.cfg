SPECIFICATION Spec
CONSTANTS
 Rigs <- RigsSmall
 Pts <- PtsSmall
 Vs <- VsSmall
 Turns <- TurnsSmall
 MinPts = 1
 Steps = 4
 Pick <- All
INVARIANTS Gradients ExactStays Emit
CHECK_DEADLOCK FALSE
