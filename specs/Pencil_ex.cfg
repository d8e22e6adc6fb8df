SPECIFICATION Spec
CONSTANTS
 AS <- A9
 CS <- CSmall
 QS <- QOne
 RS <- RSmall
 Cubes <- NoCubes
 Start <- StartAll
 Steps = 1
 Pick <- All
CONSTRAINT Bound
INVARIANTS TypeOK InPencil LInfOptimal L1Optimal LInfEqual L1Corner OnRays Symmetric ExactAgree Emit
CHECK_DEADLOCK FALSE
