SPECIFICATION TraceSpec
CONSTANTS
 Wide = {1, 2, 3}
 Narrow = {4}
 Small = {5, 6, 7}
 Feeds = {1, 2}
 Windows = {0}
 MinNews = {1}
 Sights = {}
 Distances = {FALSE}
 Steps = 0
 Pick <- All
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
