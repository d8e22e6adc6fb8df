SPECIFICATION Spec
CONSTANTS
 Words = {0, 1, 2, 3, 4, 5, 6}
 Noises <- NoisesMC
 Spots <- SpotsMC
 Lens = {0, 1, 2, 3, 4, 5, 6, 7}
 Levels <- LevelsMC
 Feeds = {1, 2}
 MaxFrames = 9
 Margins = {1, 3, 24}
 Queries <- QueriesMC
 Budget = 6
 Pattern <- PatternMC
 Width = 16
 Height = 13
 Steps = 22
 EmitOne <- Every
 Pick <- One
INVARIANTS Ordered OneToOne Itself Joined Found Mutual Emit
CHECK_DEADLOCK FALSE
