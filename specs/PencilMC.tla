------------------------------ MODULE PencilMC ------------------------------
EXTENDS Pencil, Randomization
All(S) == S
Few(S) == IF Cardinality(S) <= 3 THEN S ELSE RandomSubset(3, S)
Sphere(L, k) == {v \in Vecs((-k)..k) : N2(v) = L}
\* exhaustive: bearings of length 3
A9 == Sphere(9, 3)
CSmall == {<<1, 0, 0>>, <<-1, 2, 0>>, <<1, 1, -3>>}
QOne == {<<1, 0, 0, 0>>}
RSmall == {<<0, 1, 4>>, <<1, -2, 1>>, <<3, 0, 1>>, <<-1, 2, 5>>}
NoCubes == {}
StartAll == [a |-> A9, b |-> A9, c |-> CSmall, q |-> QOne, r |-> RSmall]
\* sampled
A81 == Sphere(81, 9)
A49 == Sphere(49, 7)
CBig == Vecs({-2, -1, 0, 1, 3}) \ {Zero3}
RBig == Vecs({-4, -2, 0, 1, 3, 6}) \ {Zero3}
QBig == Quats(2, 9)
Start81 == [a |-> {<<4, 4, 7>>, <<1, -4, 8>>}, b |-> {<<-4, 1, 8>>, <<7, 4, 4>>}, c |-> {<<1, 0, 0>>, <<2, -1, 0>>},
            q |-> {<<1, 0, 0, 0>>, <<1, 1, 0, 1>>}, r |-> {<<0, 1, 3>>}]
Start49 == [a |-> {<<2, 3, 6>>, <<3, -6, 2>>}, b |-> {<<-3, 2, 6>>, <<6, 3, 2>>}, c |-> {<<-1, 0, 0>>, <<2, 1, 0>>},
            q |-> {<<1, 0, 0, 0>>, <<2, 1, 0, 1>>}, r |-> {<<0, 1, 3>>}]
CubesBig == {p \in Quats(1, 4) : QN(p) \in {1, 2, 4}}
=============================================================================
