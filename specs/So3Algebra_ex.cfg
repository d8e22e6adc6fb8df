SPECIFICATION Spec
CONSTANTS
 Vs <- VsAll
 Ws <- WsAll
INVARIANTS HatIsCross VeeUndoesHat HatSkew Hat2Formula BracketIsCross Jacobi Bilinear Emit
CHECK_DEADLOCK FALSE
