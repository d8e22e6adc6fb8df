SPECIFICATION Spec
CONSTANTS
 NF = 4
 K = 2
 MR = 1
 Centres <- CentresMC
 Qs <- QuatsMC
 Points <- PointsMC
 Sees <- SeesSmall
 MinRobust = 1
 MinObs = 3
 MinCovis = 1
 MinPairs = 0
 MinNew = 1
 Steps = 100
 EmitOne <- Few
 Pick <- All
VIEW Now
CONSTRAINT FewCons
ACTION_CONSTRAINT EmitSome
INVARIANTS Partition OncePerView Disjoint Constrained DeadIsEmpty
CHECK_DEADLOCK FALSE
