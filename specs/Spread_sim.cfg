SPECIFICATION Spec
CONSTANTS
 Dirs <- DirsBig
 Needs <- NeedsBig
 Bars <- BarsBig
 MaxEyes = 7
 Steps = 14
 Pick <- One
INVARIANTS TypeOK Alone Without Merged Lower Distance Symmetric Emit

CHECK_DEADLOCK FALSE
