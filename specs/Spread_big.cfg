SPECIFICATION Spec
CONSTANTS
 Dirs <- DirsEx
 Needs <- NeedsEx
 Bars <- BarsEx
 MaxEyes = 4
 Steps = 4
 Pick <- All
INVARIANTS TypeOK Alone Without Merged Lower Distance Symmetric Emit
PROPERTIES Grown
CHECK_DEADLOCK FALSE
