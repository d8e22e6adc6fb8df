SPECIFICATION Spec
CONSTANTS
 Qs <- QsBig
 Ts <- TsBig
 Ds <- DsBig
 As <- AsBig
 Bs <- BsBig
 Xs <- XsBig
 NoX <- NoPoint
 Pick <- One
INVARIANTS ZeroIffExact Emit
CHECK_DEADLOCK FALSE
