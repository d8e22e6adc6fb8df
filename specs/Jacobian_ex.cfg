SPECIFICATION Spec
CONSTANTS
 Poses <- PosesAll
 Pts <- PtsAll
 Ms <- MsAll
 Es <- EsAll
 Hs <- HsAll
INVARIANTS InputDerivative TranslationDerivative RotationDerivative Emit
CHECK_DEADLOCK FALSE
