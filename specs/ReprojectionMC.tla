--------------------------- MODULE ReprojectionMC ---------------------------
EXTENDS Reprojection, Randomization
One(S) == RandomSubset(1, S)
NoPoint == <<0, 0, 0, 0>>
QsBig == {<<1,0,0,0>>, <<1,1,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<5,1,0,-1>>, <<9,1,-2,1>>, <<2,-1,1,1>>, <<20,1,3,-2>>, <<1,0,1,0>>, <<1,2,-1,0>>, <<0,1,1,2>>, <<7,0,0,4>>}
TsBig == {<<0,0,0>>, <<1,0,0>>, <<0,-1,3>>, <<-5,1,3>>, <<2,0,-3>>, <<0,-7,0>>, <<2,9,-11>>, <<0,0,-4>>}
DsBig == {1, 3}
AsBig == {<<0,0,1>>, <<1,-2,4>>, <<3,1,-2>>, <<-1,0,7>>, <<5,5,1>>, <<0,3,-1>>}
BsBig == {<<0,0,1>>, <<2,-1,3>>, <<-3,1,-2>>, <<-1,4,9>>, <<0,5,1>>, <<1,3,-4>>}
XsBig == {<<x1, x2, x3, x4>> : x1 \in {-7, 0, 2}, x2 \in {-3, 0, 5}, x3 \in {-6, -1, 1, 4, 12, 40}, x4 \in {0, 1, 4}}
=============================================================================
