SPECIFICATION Spec
CONSTANTS
 Wide = {1, 2}
 Narrow = {}
 Small = {5}
 Feeds = {1}
 Windows = {0, 3}
 MinNews = {1}
 Sights <- SightsMore
 Distances = {FALSE}
 Steps = 4
 Pick <- All
INVARIANTS TypeOK Apart Partition Pure Held Linked Taken Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
