--------------------------- MODULE ThreePointsMC ----------------------------
EXTENDS ThreePoints, Randomization
All(S) == S
One(S) == RandomSubset(1, S)
QsSmall == {<<1,0,0,0>>, <<1,1,0,0>>, <<1,1,1,1>>, <<2,0,1,-1>>}
CsSmall == {<<0,0,0>>, <<1,-2,-3>>, <<0,0,-4>>}
PtsSmall == {<<1,0,2,1>>, <<0,1,2,1>>, <<-1,0,3,1>>, <<2,2,5,1>>, <<1,0,1,0>>}
TurnsSmall == {<<1,0,0,1>>}
ShiftsSmall == {<<1,1,-1>>}
WrongSmall == {<<0,0,1>>, <<1,2,-1>>}
QsBig == {<<1,0,0,0>>, <<9,1,0,0>>, <<8,0,-1,1>>, <<3,1,0,-1>>, <<1,1,1,0>>, <<0,1,0,2>>, <<7,-1,2,0>>, <<2,0,0,-1>>, <<6,1,1,-1>>, <<0,1,0,0>>, <<5,-1,1,1>>}
CsBig == {<<0,0,0>>, <<1,0,0>>, <<-2,1,1>>, <<0,-3,1>>, <<2,2,-1>>, <<0,0,3>>, <<-1,-2,-2>>, <<3,1,0>>, <<1,-4,2>>, <<0,0,-5>>, <<6,-7,3>>}
PtsBig == {<<1,2,5,1>>, <<-1,0,4,1>>, <<2,-2,-3,1>>, <<0,1,6,1>>, <<3,3,7,1>>, <<-4,1,5,1>>, <<4,-1,6,1>>, <<-2,-3,4,1>>, <<0,-4,7,1>>, <<5,2,8,1>>, <<-5,-2,6,1>>,
           <<-3,4,9,1>>, <<2,5,5,1>>, <<1,-5,8,1>>, <<6,0,7,1>>, <<-6,3,8,1>>, <<0,0,-5,1>>, <<-2,4,1,1>>, <<5,-4,2,1>>, <<3,-6,1,1>>, <<-7,-1,3,1>>, <<1,1,-8,1>>,
           <<3,-2,5,0>>, <<7,7,3,2>>, <<-5,3,11,2>>, <<4,9,13,2>>, <<-7,-4,9,3>>, <<8,1,10,3>>, <<2,3,0,1>>, <<-3,1,0,1>>}
TurnsBig == {<<1,1,0,0>>, <<1,1,1,1>>, <<1,0,-1,0>>, <<0,1,1,0>>, <<1,-1,1,-1>>, <<0,0,0,1>>, <<2,1,0,0>>, <<3,0,-1,1>>}
ShiftsBig == {<<0,0,1>>, <<2,-1,0>>, <<-3,1,2>>, <<0,4,-2>>, <<5,0,-7>>}
WrongBig == {<<0,0,1>>, <<1,0,0>>, <<1,2,-1>>, <<3,-1,5>>, <<-2,-2,7>>, <<0,1,9>>, <<4,4,-5>>}
TriplesSmall == PtsSmall \X PtsSmall \X PtsSmall
TriplesBig == {<< <<1,2,5,1>>, <<-1,0,4,1>>, <<3,3,7,1>> >>, << <<4,9,13,2>>, <<2,-2,-3,1>>, <<5,-4,2,1>> >>, << <<0,1,6,1>>, <<-4,1,5,1>>, <<1,1,-8,1>> >>,
               << <<2,5,5,1>>, <<-5,-2,6,1>>, <<7,7,3,2>> >>}
=============================================================================
