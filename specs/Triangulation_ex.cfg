SPECIFICATION Spec
CONSTANTS
 QS <- QSmall
 CS <- CSmall
 PS <- PSmall
 Moves <- MovesNone
 MaxCams = 2
 NoiseK = 0
 Steps = 4
 Pick <- All
INVARIANTS TypeOK RaysMeet NoiseKeepsSide Emit
PROPERTY OutcomeFrameFree
CHECK_DEADLOCK FALSE
