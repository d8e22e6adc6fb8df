SPECIFICATION Spec
CONSTANTS
 K = 81
 Coords <- CoordsBig
 QS <- QBig
 CS <- CBig
 Ts <- TBig
 Cone = 85
 MaxRays = 4
 Moves <- MovesBig
 Steps = 12
 Pick <- One
INVARIANTS TypeOK Stationary Unique Emit
CHECK_DEADLOCK FALSE
