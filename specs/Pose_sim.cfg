SPECIFICATION Spec
CONSTANTS
 Qs <- QsBig
 Ts <- TsBig
 Ds <- DsBig
 Inits <- InitBig
 Pts <- PtsBig
 Ks <- KsBig
 Scales <- ScalesBig
 Steps = 10
 QMax = 300
 TMax = 2000
 Pick <- One
INVARIANTS TypeOK RoundTrip InverseTwice InfinityKept Homomorphism WorldToWorld Emit
CHECK_DEADLOCK FALSE
