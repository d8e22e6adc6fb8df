------------------------------ MODULE TangentMC ------------------------------
EXTENDS Tangent, Randomization
All(S) == S
One(S) == RandomSubset(1, S)
\* every rotation with a primitive quaternion with components up to 2
QsAll == Quats(2, 7)
TsOne == {<<1, -2, 3>>}
TsBig == {<<0,0,0>>, <<1,0,0>>, <<0,-1,3>>, <<-5,1,3>>, <<12,0,-3>>, <<0,-7,0>>, <<2,9,-11>>}
D1 == {1}
DsBig == {1, 3}
F2 == {-1, 2}
FBig == {-2, -1, 0, 1, 2, 3}
QsSim == RandomSubset(24, Quats(3, 20))
=============================================================================
