------------------------------ MODULE SpreadMC ------------------------------
EXTENDS Spread, Randomization
All(S) == S
One(S) == IF Cardinality(S) <= 1 THEN S ELSE RandomSubset(1, S)
Few(S) == IF Cardinality(S) <= 3 THEN S ELSE RandomSubset(3, S)
\* a fan, so that it depends on the bar which are apart, and one from behind
DirsEx == {<<0,0,4>>, <<1,0,4>>, <<2,0,4>>, <<3,1,3>>, <<-1,0,-4>>}
DirsFew == {<<0,0,4>>, <<1,0,4>>, <<3,1,3>>, <<-1,0,-4>>}
BarsFew == {<<1,50>>, <<1,4>>}
NeedsEx == {2, 3}
BarsEx == {<<1,50>>, <<1,10>>, <<1,4>>}
DirsBig == {d \in Vecs(-4..4) : N2(d) >= 9 /\ N2(d) <= 41}
\* about one side, so that many are close to each other
DirsNarrow == {d \in Vecs(-4..4) : N2(d) >= 9 /\ d[3] >= 3 /\ Abs(d[1]) + Abs(d[2]) <= 3}
NeedsBig == {2, 3, 4, 9}
BarsBig == {<<1,50>>, <<1,20>>, <<1,10>>, <<1,4>>, <<3,5>>}
BarsNarrow == {<<1,50>>, <<1,20>>, <<1,10>>, <<1,4>>}
=============================================================================
