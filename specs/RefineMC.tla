------------------------------ MODULE RefineMC ------------------------------
EXTENDS Refine, Randomization
All(S) == S
One(S) == RandomSubset(1, S)
D(q, t, d) == [q |-> q, t |-> t, d |-> d]
QsSmall == {<<1,0,0,0>>, <<1,1,0,0>>, <<1,1,1,1>>}
CsSmall == {<<0,0,0>>, <<1,-2,-3>>}
PtsSmall == {<<1,0,2,1>>, <<-1,1,3,1>>, <<0,1,1,0>>}
TurnsSmall == {<<1,0,0,1>>}
ShiftsSmall == {<<1,1,-1>>}
DispsSmall == {D(<<4,1,0,0>>, <<0,0,0>>, 1), D(<<1,0,0,0>>, <<1,0,0>>, 2)}
WrongSmall == {<<1,2,-1>>}
QsBig == {<<1,0,0,0>>, <<1,1,0,0>>, <<1,1,1,1>>, <<2,0,1,0>>, <<0,1,0,1>>, <<1,0,-1,1>>, <<2,1,0,-1>>, <<0,0,1,0>>, <<2,-1,1,1>>}
CsBig == {<<0,0,0>>, <<1,0,0>>, <<-2,1,1>>, <<0,-3,1>>, <<2,2,-1>>, <<-1,-2,-2>>, <<3,1,0>>, <<0,0,-5>>}
PtsBig == {<<1,2,5,1>>, <<-1,0,4,1>>, <<2,-2,-3,1>>, <<0,1,6,1>>, <<3,3,7,1>>, <<-4,1,5,1>>, <<4,-1,6,1>>, <<-2,-3,4,1>>, <<0,-4,7,1>>, <<5,2,8,1>>, <<-5,-2,6,1>>,
           <<-3,4,9,1>>, <<2,5,5,1>>, <<1,-5,8,1>>, <<6,0,7,1>>, <<-6,3,8,1>>, <<0,0,-5,1>>, <<-2,4,1,1>>, <<5,-4,2,1>>, <<3,-6,1,1>>, <<-7,-1,3,1>>, <<1,1,-8,1>>,
           <<3,-2,5,0>>, <<7,7,3,2>>, <<-5,3,11,2>>, <<1,2,-1,0>>, <<3,7,-9,2>>}
TurnsBig == {<<1,1,0,0>>, <<1,1,1,1>>, <<1,0,-1,0>>, <<0,1,1,0>>, <<1,-1,1,-1>>, <<0,0,0,1>>}
ShiftsBig == {<<0,0,1>>, <<2,-1,0>>, <<-3,1,2>>, <<0,4,-2>>}
DispsBig == {D(<<4,1,0,0>>, <<0,0,0>>, 1), D(<<5,0,-1,0>>, <<1,0,0>>, 2), D(<<6,0,1,1>>, <<0,-1,0>>, 1), D(<<1,0,0,0>>, <<1,0,2>>, 3), D(<<1,0,0,0>>, <<0,-1,1>>, 2),
             D(<<9,1,0,-1>>, <<0,0,1>>, 4), D(<<3,0,1,-1>>, <<1,1,0>>, 1), D(<<1,2,0,0>>, <<0,2,1>>, 1), D(<<0,1,0,0>>, <<0,0,0>>, 1)}
WrongBig == {<<0,0,1>>, <<1,0,0>>, <<1,2,-1>>, <<3,-1,5>>, <<-2,-2,7>>, <<0,1,9>>, <<4,4,-5>>}
=============================================================================
