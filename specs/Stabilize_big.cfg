SPECIFICATION Spec
CONSTANTS
 Patience = 3
 Width = 2
 Values = {1, 2}
 Limit = 9
INVARIANTS BestIsSmallest StopsRight NeverEarly QuietRight Bounded
CHECK_DEADLOCK FALSE
