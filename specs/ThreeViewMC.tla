---------------------------- MODULE ThreeViewMC ----------------------------
EXTENDS ThreeView, Randomization
All(S) == S
One(S) == RandomSubset(1, S)
RigsSmall == {<<<<1,0,0,0>>, <<1,0,0>>, <<1,1,0,0>>, <<0,2,-1>>>>, <<<<3,0,1,0>>, <<-2,1,1>>, <<1,0,0,0>>, <<1,-1,0>>>>}
PtsSmall == {<<1,2,5>>, <<-1,0,4>>, <<2,-2,-3>>}
VsSmall == {<<0,1,2>>, <<-1,1,3>>}
TurnsSmall == {<<1,1,0,0>>, <<1,1,1,1>>}
Fs == {<<1,0,0>>, <<-2,1,1>>, <<0,-3,1>>, <<2,2,-1>>, <<0,0,3>>, <<-1,-2,-2>>, <<3,1,0>>}
Ss == {<<0,2,-1>>, <<1,-1,0>>, <<-3,0,1>>, <<1,1,2>>, <<-1,3,0>>, <<2,0,-2>>}
QsAny == {<<1,0,0,0>>, <<9,1,0,0>>, <<8,0,-1,1>>, <<3,1,0,-1>>, <<1,1,1,0>>, <<0,1,0,2>>, <<7,-1,2,0>>, <<2,0,0,-1>>}
RigsBig == RandomSubset(500, {<<a, f, b, s>> : a \in QsAny, f \in Fs, b \in QsAny, s \in Ss})
PtsBig == {<<1,2,5>>, <<-1,0,4>>, <<2,-2,-3>>, <<0,1,6>>, <<3,3,7>>, <<-4,1,5>>, <<4,-1,6>>, <<-2,-3,4>>, <<0,-4,7>>, <<5,2,8>>, <<-5,-2,6>>,
           <<-3,4,9>>, <<2,5,5>>, <<1,-5,8>>, <<6,0,7>>, <<-6,3,8>>, <<0,0,-5>>, <<-2,4,1>>, <<5,-4,2>>, <<3,-6,1>>, <<-7,-1,3>>, <<1,1,-8>>}
VsBig == {<<0,1,2>>, <<-1,1,3>>, <<2,1,4>>, <<1,-3,5>>, <<0,0,1>>, <<-2,-1,3>>, <<3,0,-2>>, <<1,1,1>>}
TurnsBig == {<<1,1,0,0>>, <<1,1,1,1>>, <<1,0,-1,0>>, <<0,1,1,0>>, <<1,-1,1,-1>>, <<0,0,0,1>>}
=============================================================================
