SPECIFICATION Spec
CONSTANTS
 K = 9
 Coords <- CoordsEx
 QS <- QOne
 CS <- CEx
 Ts <- TEx
 Cone = 80
 MaxRays = 3
 Moves <- MovesEx
 Steps = 4
 Pick <- All
INVARIANTS TypeOK Stationary Convex Unique MeetThere Optimal TwiceIsOnce Emit
PROPERTIES OrderFree SignFree LineOnly FrameFree
CHECK_DEADLOCK FALSE
