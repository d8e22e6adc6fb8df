SPECIFICATION Spec
CONSTANTS
 Patience = 50
 Width = 2
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
