SPECIFICATION Spec
CONSTANTS
 Dirs <- DirsNarrow
 Needs <- NeedsBig
 Bars <- BarsNarrow
 MaxEyes = 7
 Steps = 14
 Pick <- One
INVARIANTS TypeOK Alone Without Merged Lower Distance Symmetric Emit

CHECK_DEADLOCK FALSE
