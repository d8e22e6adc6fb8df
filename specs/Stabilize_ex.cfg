SPECIFICATION Spec
CONSTANTS
 Patience = 2
 Width = 2
 Values = {1, 2, 3}
 Limit = 7
INVARIANTS BestIsSmallest StopsRight NeverEarly QuietRight Bounded
CHECK_DEADLOCK FALSE
