SPECIFICATION Spec
CONSTANTS
 Wide = {1, 2, 3}
 Narrow = {}
 Small = {5, 6, 7}
 Feeds = {1, 2}
 Windows = {0, 3, 5}
 MinNews = {1, 2}
 Sights <- SightsBig
 Distances = {FALSE}
 Steps = 8
 Pick <- One
INVARIANTS TypeOK Apart Partition Pure Held Linked Taken Emit
CHECK_DEADLOCK FALSE
