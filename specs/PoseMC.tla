------------------------------- MODULE PoseMC -------------------------------
EXTENDS Pose, Randomization
All(S) == S
One(S) == RandomSubset(1, S)
QsSmall == {<<1,0,0,0>>, <<1,1,0,0>>, <<1,-1,1,2>>}
TsSmall == {<<0,0,0>>, <<1,0,-2>>, <<0,3,1>>}
DsSmall == {1}
InitSmall == {MkPose(<<1,0,0,0>>, <<0,0,0>>, 1), MkPose(<<1,1,0,0>>, <<1,0,-2>>, 1),
              MkPose(<<0,0,1,0>>, <<0,3,1>>, 2), MkPose(<<1,-1,1,2>>, <<-2,1,0>>, 3)}
PtsSmall == {<<0,0,5,1>>, <<2,-1,3,2>>, <<1,2,-1,0>>, <<-3,0,-4,1>>}
KsSmall == {-3, 1, 7}
ScalesSmall == {<<2, 1>>, <<1, 5>>}
\* 40 of the 144 primitive quaternions with components up to 2 and norm up to 7
\* (literal sets: TLC evaluates the operand of Pick anew in every step)
QsBig == {<<0,2,1,-1>>, <<0,1,0,-2>>, <<1,-1,2,0>>, <<0,2,-1,0>>, <<2,-1,1,1>>, <<1,2,1,-1>>, <<2,-1,-1,1>>, <<1,1,0,-1>>, <<1,-1,-1,2>>, <<0,1,1,1>>, <<2,-1,1,-1>>, <<0,0,2,1>>, <<1,1,0,1>>, <<1,2,-1,0>>, <<0,0,0,1>>, <<1,2,0,1>>, <<1,0,-2,0>>, <<1,1,-1,-1>>, <<1,1,1,-1>>, <<0,2,-1,-1>>, <<1,0,0,-2>>, <<2,1,-1,1>>, <<0,1,-1,0>>, <<2,1,0,-1>>, <<1,-2,0,-1>>, <<0,0,1,0>>, <<0,0,1,-1>>, <<2,-1,-1,-1>>, <<1,0,1,1>>, <<1,0,-2,1>>, <<0,0,1,-2>>, <<1,2,0,-1>>, <<1,-1,-2,1>>, <<1,0,2,1>>, <<0,1,2,0>>, <<1,-1,0,-2>>, <<2,1,0,0>>, <<1,2,1,0>>, <<1,0,-2,-1>>, <<0,1,2,1>>}
TsBig == {<<0,0,0>>, <<1,0,0>>, <<0,-1,3>>, <<-5,1,3>>, <<3,3,3>>, <<40,0,-3>>, <<0,-7,0>>, <<2,9,-11>>}
DsBig == {1, 3}
InitBig == {MkPose(q, t, 2) : q \in {<<1,0,0,0>>, <<2,-1,0,1>>, <<0,0,1,1>>}, t \in {<<0,0,0>>, <<-5,1,3>>}}
PtsBig == {<<x, y, z, w>> : x \in {-7, 0, 1}, y \in {-1, 0, 4}, z \in {-9, -1, 2, 30}, w \in {-2, 0, 1, 5}}
KsBig == {-1000, -3, -1, 1, 2, 9, 4096}
ScalesBig == {<<2, 1>>, <<1, 3>>, <<5, 7>>, <<10, 1>>, <<1, 1>>}
=============================================================================
