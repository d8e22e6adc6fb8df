SPECIFICATION Spec
CONSTANTS
 QS <- QBig
 CS <- CBig
 PS <- PBig
 Moves <- MovesBig
 MaxCams = 5
 NoiseK = 40
 Steps = 14
 Pick <- Few
CONSTRAINT Bound
INVARIANTS TypeOK RaysMeet NoiseKeepsSide Emit
CHECK_DEADLOCK FALSE
