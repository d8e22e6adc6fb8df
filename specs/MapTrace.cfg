SPECIFICATION TraceSpec
CONSTANTS
 NF = 6
 K = 6
 MR = 3
 Centres <- CentresMC
 Qs <- QuatsMC
 Points <- PointsMC
 Sees <- SeesMC
 MinRobust = 2
 MinObs = 3
 MinCovis = 3
 MinPairs = 3
 MinNew = 1
 Steps = 60
 EmitOne <- Every
 Pick <- One
INVARIANTS Partition OncePerView Disjoint Constrained DeadIsEmpty
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
