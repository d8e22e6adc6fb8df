SPECIFICATION Spec
CONSTANTS
 AS <- A81
 CS <- CBig
 QS <- QBig
 RS <- RBig
 Cubes <- CubesBig
 Start <- Start81
 Steps = 12
 Pick <- Few
CONSTRAINT Bound
INVARIANTS TypeOK InPencil LInfEqual L1Corner OnRays Symmetric ExactAgree Emit
CHECK_DEADLOCK FALSE
