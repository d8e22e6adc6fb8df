------------------------- MODULE TriangulationMC -------------------------
EXTENDS Triangulation, Randomization
All(S) == S
Few(S) == IF Cardinality(S) <= 4 THEN S ELSE RandomSubset(4, S)
\* exhaustive: every pair and order of observations over a small world
QSmall == {<<1,0,0,0>>, <<0,0,1,0>>, <<1,1,0,0>>, <<1,-1,1,2>>}
CSmall == {<<0,0,0>>, <<1,0,0>>, <<3,0,9>>, <<-2,1,-1>>, <<0,-4,2>>}
PSmall == {<<0,0,4,1>>, <<2,-1,5,1>>, <<-3,1,-2,1>>, <<1,2,0,1>>, <<1,1,2,0>>}
\* sampled: long behaviours over a large one
QBig == Quats(2, 9)
CBig == Vecs({-6, -1, 0, 2, 7})
PBig == {<<x, y, z, w>> : x \in {-5, 0, 1, 8}, y \in {-3, 0, 2}, z \in {-4, 1, 3, 20}, w \in {1}}
        \cup {<<1, 0, 0, 0>>, <<0, -1, 2, 0>>, <<2, 3, -5, 0>>}
MovesBig == {<<q, t>> : q \in {p \in Quats(1, 4) : QN(p) \in {1, 2, 4}}, t \in {<<0,0,0>>, <<3,-2,1>>, <<-9,4,11>>}}
MovesNone == {}
==========================================================================
