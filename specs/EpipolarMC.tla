----------------------------- MODULE EpipolarMC -----------------------------
EXTENDS Epipolar, Randomization
All(S) == S
One(S) == RandomSubset(1, S)
QsAll == Quats(2, 7)
TsAll == {<<0,0,0>>, <<1,0,0>>, <<0,-1,3>>, <<-5,1,3>>, <<2,0,-3>>, <<0,0,-4>>, <<2,9,-11>>}
D1 == {1}
PtsOne == {<<2, -1, 7, 1>>}
VsOne == {<<1, 2, 3>>}
QsBig == RandomSubset(80, Quats(3, 20))
TsBig == {<<0,0,0>>, <<1,0,0>>, <<0,-1,3>>, <<-5,1,3>>, <<2,0,-3>>, <<0,-7,0>>, <<2,9,-11>>, <<0,0,-4>>}
DsBig == {1, 3}
PtsBig == {<<x1, x2, x3, x4>> : x1 \in {-7, 0, 2}, x2 \in {-3, 0, 5}, x3 \in {-6, 1, 4, 12}, x4 \in {0, 1, 2}}
VsBig == {<<0,0,1>>, <<1,-2,4>>, <<3,1,-2>>, <<-1,0,7>>, <<5,5,1>>, <<0,3,-1>>, <<-2,1,1>>}
=============================================================================
