SPECIFICATION Spec
CONSTANTS
 Wide = {1, 2}
 Narrow = {4}
 Small = {5}
 Feeds = {1}
 Windows = {0}
 MinNews = {1}
 Sights <- SightsNarrow
 Distances = {TRUE, FALSE}
 Steps = 4
 Pick <- All
INVARIANTS TypeOK Apart Partition Pure Held Linked Taken Emit
PROPERTY Grows
CHECK_DEADLOCK FALSE
