SPECIFICATION Spec
CONSTANTS
 Qs <- QsSmall
 Ts <- TsSmall
 Ds <- DsSmall
 Inits <- InitSmall
 Pts <- PtsSmall
 Ks <- KsSmall
 Scales <- ScalesSmall
 Steps = 3
 QMax = 300
 TMax = 2000
 Pick <- All
INVARIANTS TypeOK RoundTrip InverseTwice InfinityKept Homomorphism WorldToWorld
PROPERTY FrameFree
CHECK_DEADLOCK FALSE
