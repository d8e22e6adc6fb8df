SPECIFICATION Spec
CONSTANTS
 Wide = {1, 2, 3}
 Narrow = {}
 Small = {5, 6, 7}
 Feeds = {1, 2}
 Windows = {0, 4, 6}
 MinNews = {1, 3}
 Sights <- SightsLong
 Distances = {FALSE}
 Steps = 10
 Pick <- One
INVARIANTS TypeOK Apart Partition Pure Held Linked Taken Emit
CHECK_DEADLOCK FALSE
