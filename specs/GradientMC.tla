----------------------------- MODULE GradientMC -----------------------------
EXTENDS Gradient, Randomization
All(S) == S
One(S) == RandomSubset(1, S)
VsSmall == {<<0,0,1>>, <<1,2,2>>, <<-2,1,2>>, <<2,3,-6>>, <<0,3,4>>, <<-1,-2,-2>>}
QsSmall == {<<1,1,0,0>>, <<1,0,1,-1>>}
StartsSmall == VsSmall \X VsSmall
VsBig == {<<-2,-6,-3>>, <<7,-4,-4>>, <<4,-4,7>>, <<-2,3,6>>, <<3,-6,2>>, <<-3,2,6>>, <<4,4,7>>, <<6,-3,-2>>, <<6,-2,3>>, <<-7,4,-4>>, <<2,-6,-3>>, <<-6,-2,3>>, <<2,3,-6>>, <<-2,6,-3>>, <<4,7,4>>, <<7,4,4>>, <<3,-2,-6>>, <<1,2,2>>, <<3,6,-2>>, <<0,0,1>>, <<-2,1,-2>>, <<-6,2,-3>>, <<-1,0,0>>, <<2,-2,1>>, <<-2,-6,3>>, <<0,0,-1>>, <<-2,-3,-6>>, <<-6,-3,2>>, <<1,-2,2>>, <<7,4,-4>>, <<-4,-4,7>>, <<-2,-2,1>>, <<-3,-2,-6>>, <<-2,2,-1>>, <<1,-2,-2>>, <<-2,2,1>>, <<2,-1,2>>, <<-2,1,2>>, <<4,4,-7>>, <<-3,-6,2>>, <<-6,-3,-2>>, <<6,3,-2>>, <<2,3,6>>, <<6,-2,-3>>, <<2,-1,-2>>, <<3,-6,-2>>, <<3,2,-6>>, <<-4,7,4>>}
StartsBig == RandomSubset(600, VsBig \X VsBig)
QsBig == {<<1,1,0,0>>, <<1,0,1,-1>>, <<0,1,0,0>>, <<2,1,0,0>>, <<1,1,1,1>>, <<1,-1,1,0>>, <<0,0,1,2>>, <<1,0,0,0>>}
=============================================================================
