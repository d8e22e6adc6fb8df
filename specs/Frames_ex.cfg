SPECIFICATION SpecEx
CONSTANTS
 Words = {0, 1}
 Noises <- NoisesEx
 Spots <- SpotsEx
 Lens = {0, 1, 2, 3}
 Levels = {0}
 Feeds = {1}
 MaxFrames = 2
 Margins = {1, 2, 3}
 Queries <- NoQueries
 Budget = 100
 Pattern <- PatternMC
 Width = 16
 Height = 13
 Steps = 2
 EmitOne <- Every
 Pick <- All1
INVARIANTS Ordered OneToOne Itself Joined EmitPair
CHECK_DEADLOCK FALSE
