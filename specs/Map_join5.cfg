SPECIFICATION Spec
CONSTANTS
 NF = 5
 K = 1
 MR = 2
 Centres <- CentresMC
 Qs <- QuatsMC
 Points <- PointsMC
 Sees <- SeesJoin
 MinRobust = 1
 MinObs = 3
 MinCovis = 1
 MinPairs = 0
 MinNew = 1
 Steps = 100
 EmitOne <- Few
 Pick <- All
VIEW Now
ACTION_CONSTRAINT EmitSome
CONSTRAINT FewCons
INVARIANTS Partition OncePerView Disjoint Constrained DeadIsEmpty
CHECK_DEADLOCK FALSE
