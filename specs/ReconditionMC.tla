--------------------------- MODULE ReconditionMC ---------------------------
EXTENDS Recondition, Randomization
All(S) == S
One(S) == RandomSubset(1, S)
QsSmall == {<<1,0,0,0>>, <<1,1,0,0>>, <<1,-1,1,0>>, <<0,0,1,2>>, <<1,2,0,-1>>}
SsSmall == {<<1,1,0>>, <<3,1,0>>, <<4,3,1>>, <<2,2,1>>, <<2,1,1>>, <<5,0,0>>, <<1,1,1>>}
KsSmall == {<<3, 2>>}
QsBig == {<<1,1,-3,0>>, <<3,-1,2,-1>>, <<1,2,-1,2>>, <<1,2,-3,-2>>, <<2,-2,1,-2>>, <<2,0,2,3>>, <<1,0,-3,-1>>, <<2,0,-3,1>>, <<2,-1,2,-2>>, <<2,0,3,-1>>, <<2,-1,-1,-1>>, <<1,0,0,-1>>, <<0,2,-2,-1>>, <<3,1,3,0>>, <<1,0,-2,2>>, <<3,0,-1,2>>, <<2,0,0,-1>>, <<0,3,-1,-3>>, <<1,-3,1,-2>>, <<3,0,0,-1>>, <<0,1,0,1>>, <<2,1,2,2>>, <<2,-1,0,3>>, <<3,2,-2,1>>, <<1,-2,1,1>>, <<0,3,-1,2>>, <<1,2,-1,0>>, <<1,3,3,1>>, <<0,3,1,-3>>, <<0,1,2,3>>, <<1,2,-3,-1>>, <<2,-2,-1,3>>, <<1,-3,2,-2>>, <<2,-2,3,0>>, <<1,-2,-2,-1>>, <<2,2,1,-2>>, <<0,1,-2,0>>, <<1,2,2,3>>, <<0,3,-1,-2>>, <<1,2,0,-2>>}
QsInit == RandomSubset(8, QsBig)
SsOrdered == {<<1,0,0>>, <<1,1,0>>, <<1,1,1>>, <<5,0,0>>, <<5,1,0>>, <<5,1,1>>, <<5,4,0>>, <<5,4,1>>, <<5,4,3>>, <<5,5,0>>, <<5,5,1>>, <<5,5,3>>, <<17,0,0>>, <<17,1,0>>, <<17,1,1>>, <<17,4,0>>, <<17,4,1>>, <<17,4,3>>, <<17,5,0>>, <<17,5,1>>, <<17,5,3>>, <<17,16,0>>, <<17,16,1>>, <<17,16,3>>, <<40,0,0>>, <<40,1,0>>, <<40,1,1>>, <<40,4,0>>, <<40,4,1>>, <<40,4,3>>, <<40,5,0>>, <<40,5,1>>, <<40,5,3>>, <<40,16,0>>, <<40,16,1>>, <<40,16,3>>}
KsBig == {<<2, 1>>, <<1, 3>>, <<7, 5>>}
=============================================================================
