SPECIFICATION Spec
CONSTANTS
 Focals <- FocalsSmall
 Points <- PointsSmall
 Skews <- SkewsSmall
 Sensors <- SensorsSmall
 Rays <- RaysSmall
 K1s <- K1Small
 Cells <- CellsSmall
 Steps = 2
 Pick <- All
INVARIANTS PixelsHaveOneRay Centred QuadraticRoot Monotone Emit
PROPERTY SettersLocal
CHECK_DEADLOCK FALSE
