------------------------------ MODULE FramesMC ------------------------------
EXTENDS Frames, Randomization
All1(S) == S
One(S) == IF S = {} THEN {} ELSE RandomSubset(1, S)
Every(i) == TRUE
PatternMC == << <<37, 11, 3, 5>>, <<90, 201, 7, 0>>, <<1, 130, 59, 77>> >>
SpotsMC == {<<x, y>> : x \in 0..59, y \in 0..47}
NoisesMC == {{}, {1}, {2}, {1, 2}, {1, 2, 3}, {3, 4, 5, 6}, {1, 2, 3, 4, 5, 6}, 1..9, 5..12, 1..20}
QueriesMC == {[similar |-> 0, recent |-> 2, threshold |-> 3, search |-> 9], [similar |-> 9, recent |-> 1, threshold |-> 0, search |-> 12], [similar |-> 2, recent |-> 1, threshold |-> 0, search |-> 3], [similar |-> 1, recent |-> 2, threshold |-> 3, search |-> 4], [similar |-> 2, recent |-> 4, threshold |-> 0, search |-> 9], [similar |-> 3, recent |-> 2, threshold |-> 4, search |-> 5], [similar |-> 1, recent |-> 1, threshold |-> 0, search |-> 1], [similar |-> 9, recent |-> 9, threshold |-> 9, search |-> 9], [similar |-> 1, recent |-> 3, threshold |-> 1, search |-> 12], [similar |-> 4, recent |-> 1, threshold |-> 2, search |-> 6]}
LevelsMC == 0..15
NoQueries == {}
\* the exhaustive scene
NoisesEx == {{}, {1, 2}}
SpotsEx == {<<20, 20>>}
NextEx == /\ n < Steps /\ n' = n + 1
          /\ \E m \in Lens : \E F \in Bag(1, m, Words) : Shoot(1, F)
SpecEx == Init /\ [][NextEx]_vars
=============================================================================
