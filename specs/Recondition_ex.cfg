SPECIFICATION Spec
CONSTANTS
 Qs <- QsSmall
 Ss <- SsSmall
 Ks <- KsSmall
 Steps = 2
 Pick <- All
INVARIANTS Ordered FrobIsSingular IsEssential Idempotent NoneCloser Emit
CHECK_DEADLOCK FALSE
