SPECIFICATION Spec
CONSTANTS
 Focals <- FocalsBig
 Points <- PointsBig
 Skews <- SkewsBig
 Sensors <- SensorsBig
 Rays <- RaysBig
 K1s <- K1Big
 Cells <- CellsBig
 Steps = 6
 Pick <- One
INVARIANTS PixelsHaveOneRay Centred QuadraticRoot Monotone Emit
CHECK_DEADLOCK FALSE
