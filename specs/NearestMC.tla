------------------------- MODULE NearestMC -------------------------
EXTENDS Nearest, Randomization
All(S) == S
One(S) == IF Cardinality(S) <= 1 THEN S ELSE RandomSubset(1, S)
Few(S) == IF Cardinality(S) <= 3 THEN S ELSE RandomSubset(3, S)
\* exhaustive: every set of two or three of a few rays of length 3
QOne == {<<1,0,0,0>>}
CEx == {<<0,0,0>>, <<2,0,0>>, <<0,-1,2>>}
TEx == {<<0,0,4>>, <<1,2,2>>}
MovesEx == {<<<<1,0,1,0>>, <<1,-1,0>>>>}
CoordsEx == {-3, -2, -1, 0, 1, 2, 3}
\* sampled: long histories over many, of length 9
QBig == Quats(2, 9)
CBig == Vecs({-3, -2, 0, 1, 3})
TBig == {<<0,0,5>>, <<4,-3,2>>, <<-2,5,-1>>, <<1,1,8>>, <<0,-9,2>>}
CoordsBig == {-9, -8, -7, -6, -4, -3, -1, 0, 1, 3, 4, 6, 7, 8, 9}
MovesBig == {<<q, t>> : q \in {p \in Quats(1, 4) : QN(p) \in {1, 2, 4}}, t \in {<<0,0,0>>, <<3,-2,1>>, <<-4,4,0>>}}
====================================================================
