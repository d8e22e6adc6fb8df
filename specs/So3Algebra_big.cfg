SPECIFICATION Spec
CONSTANTS
 Vs <- VsBig
 Ws <- WsAll
INVARIANTS HatIsCross VeeUndoesHat HatSkew Hat2Formula BracketIsCross Jacobi Bilinear Emit
CHECK_DEADLOCK FALSE
