SPECIFICATION Spec
CONSTANTS
 Poses <- PosesBig
 Pts <- PtsBig
 Ms <- MsAll
 Es <- EsAll
 Hs <- HsAll
INVARIANTS InputDerivative TranslationDerivative RotationDerivative Emit
CHECK_DEADLOCK FALSE
