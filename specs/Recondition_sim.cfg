SPECIFICATION Spec
CONSTANTS
 Qs <- QsInit
 Ss <- SsOrdered
 Ks <- KsBig
 Steps = 7
 Pick <- One
INVARIANTS Ordered FrobIsSingular IsEssential Idempotent NoneCloser Emit
CHECK_DEADLOCK FALSE
