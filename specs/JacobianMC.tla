----------------------------- MODULE JacobianMC -----------------------------
EXTENDS Jacobian, Randomization
PtsAll == {<<0,0,5,1>>, <<2,-1,3,2>>, <<1,2,-1,0>>, <<-3,0,-4,1>>, <<7,-5,2,0>>, <<1,1,1,3>>}
PosesAll == {<<q, t, d>> : q \in Quats(2, 6), t \in {<<0,0,0>>, <<1,-2,3>>, <<-4,0,1>>}, d \in {1, 3}}
MsAll == {100}
EsAll == {<<1,0,0>>, <<0,1,-1>>, <<2,-3,1>>}
HsAll == {<<1,0,0,0>>, <<0,1,0,0>>, <<0,0,1,0>>, <<0,0,0,1>>, <<-2,3,5,-1>>}
\* beyond the small ones
R1(S) == CHOOSE x \in RandomSubset(1, S) : TRUE
PtsBig == {<<R1(-30..30), R1(-30..30), R1(1..30), R1(0..9)>> : i \in 1..8} \cup {<<R1(1..30), R1(-30..30), R1(-30..-1), 0>> : i \in 1..4}
PosesBig == {<<q, <<R1(-40..40), R1(-40..40), R1(-40..40)>>, d>> : q \in RandomSubset(60, Quats(3, 24)), d \in {1, 7}}
=============================================================================
