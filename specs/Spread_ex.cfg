SPECIFICATION Spec
CONSTANTS
 Dirs <- DirsFew
 Needs <- NeedsEx
 Bars <- BarsFew
 MaxEyes = 3
 Steps = 4
 Pick <- All
INVARIANTS TypeOK Alone Without Merged Lower Distance Symmetric Emit
PROPERTIES Grown
CHECK_DEADLOCK FALSE
