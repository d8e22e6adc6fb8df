----------------------------- MODULE MatchesMC ------------------------------
EXTENDS Matches, Randomization
All(S) == S
One(S) == RandomSubset(1, S)
QsSmall == {<<1,0,0,0>>, <<3,0,1,0>>}
TsSmall == {<<0,0,0>>, <<1,-2,0>>}
PtsSmall == {<<1,2,5,1>>, <<-1,0,4,1>>, <<2,-2,-3,1>>}
TurnsSmall == {<<1,1,0,0>>}
QsBig == {<<1,0,0,0>>, <<9,1,0,0>>, <<8,0,-1,1>>, <<3,1,0,-1>>, <<1,1,1,0>>, <<0,1,0,2>>, <<7,-1,2,0>>, <<2,0,0,-1>>, <<6,1,1,-1>>, <<0,1,0,0>>, <<5,-1,1,1>>}
TsBig == {<<0,0,0>>, <<1,0,0>>, <<-2,1,1>>, <<0,-3,1>>, <<2,2,-1>>, <<0,0,3>>, <<-1,-2,-2>>, <<3,1,0>>, <<1,-4,2>>, <<0,0,-5>>, <<6,-7,3>>}
PtsBig == {<<1,2,5,1>>, <<-1,0,4,1>>, <<2,-2,-3,1>>, <<0,1,6,1>>, <<3,3,7,1>>, <<-4,1,5,1>>, <<4,-1,6,1>>, <<-2,-3,4,1>>, <<0,-4,7,1>>, <<5,2,8,1>>, <<-5,-2,6,1>>,
           <<-3,4,9,1>>, <<2,5,5,1>>, <<1,-5,8,1>>, <<6,0,7,1>>, <<-6,3,8,1>>, <<0,0,-5,1>>, <<-2,4,1,1>>, <<5,-4,2,1>>, <<3,-6,1,1>>, <<-7,-1,3,1>>, <<1,1,-8,1>>,
           <<3,-2,5,0>>, <<-1,4,3,0>>, <<7,7,3,2>>, <<-5,3,11,2>>, <<4,9,13,2>>, <<-7,-4,9,3>>, <<8,1,10,3>>, <<2,3,0,1>>, <<-3,1,0,1>>}
\* all points in the plane z = 6 + x, seen from either camera
PtsFlat == {<<1,2,7,1>>, <<-1,0,5,1>>, <<2,-2,8,1>>, <<0,1,6,1>>, <<3,3,9,1>>, <<-4,1,2,1>>, <<4,-1,10,1>>, <<-2,-3,4,1>>, <<0,-4,6,1>>, <<5,2,11,1>>, <<-5,-2,1,1>>}
\* all points on a line
PtsLine == {<<0,1,5,1>>, <<1,1,6,1>>, <<2,1,7,1>>, <<-1,1,4,1>>, <<-2,1,3,1>>, <<3,1,8,1>>, <<4,1,9,1>>, <<5,1,10,1>>, <<6,1,11,1>>}
\* all points at infinity
PtsFar == {<<0,1,5,0>>, <<1,1,6,0>>, <<2,-1,7,0>>, <<-1,3,4,0>>, <<-2,1,3,0>>, <<3,-4,8,0>>, <<4,1,9,0>>, <<5,2,10,0>>, <<-6,1,11,0>>}
TurnsBig == {<<1,1,0,0>>, <<1,1,1,1>>, <<1,0,-1,0>>, <<0,1,1,0>>, <<1,-1,1,-1>>, <<0,0,0,1>>, <<2,1,0,0>>, <<3,0,-1,1>>}
=============================================================================
