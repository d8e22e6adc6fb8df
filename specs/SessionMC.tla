------------------------------ MODULE SessionMC ------------------------------
EXTENDS Session, Randomization
All(S) == S
One(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)
\* exhaustive: two wide bunches and a small one
SightsEx == {{1}, {2}, {1, 2}, {1, 5}}
SightsMore == {{1}, {2}, {1, 2}, {1, 5}, {2, 5}}
\* with the narrow one
SightsNarrow == {{1}, {4}, {1, 4}}
\* sampled
SightsBig == {{w} \cup s : w \in {1, 2, 3}, s \in SUBSET {5, 6, 7}} \cup {{1, 2}, {2, 3, 6}, {1, 3, 5, 7}, {5, 6}, {1, 2, 3, 6}}
\* sessions that stay with one place
SightsLong == {{1} \cup s : s \in SUBSET {5, 6, 7}} \cup {{1, 2}, {2, 5}, {1, 2, 6}, {5, 6}}
==============================================================================
