------------------------------- MODULE Spread -------------------------------
(***************************************************************************)
(* When the observations of a landmark are spread enough to be trusted.    *)
(*                                                                         *)
(* State: eyes, the views of a reconstruction in the order they arrived;   *)
(* each sees one point from the direction d (the point is the origin) and  *)
(* its observation belongs to the first landmark, the second one, or to a  *)
(* landmark of its own (of = 0).  `need` is how many observations are      *)
(* asked for, `bar` = <<n, d>> by how much the cosine of the angle between *)
(* two of them has to fall short of 1.                                     *)
(*                                                                         *)
(* The actions are the life of the two landmarks: a view arrives, a view   *)
(* goes, an observation is split off or taken over, the two are merged, a  *)
(* camera turns out to be further away than it seemed.                     *)
(***************************************************************************)
EXTENDS Geo

CONSTANTS Dirs,     \* directions from the point to the eyes
          Needs, Bars,
          MaxEyes, Steps,
          Pick(_)

VARIABLES eyes, need, bar, n
vars == <<eyes, need, bar, n>>

N == Len(eyes)
Dir(i) == eyes[i].d
Of(k) == {i \in 1..N : eyes[i].of = k}

\* 1 - cos(u, v) > b[1]/b[2], without the root
Apart(u, v, b) == LET x == Dot3(u, v) IN
    x <= 0 \/ x * x * b[2] * b[2] < (b[2] - b[1]) * (b[2] - b[1]) * N2(u) * N2(v)
\* not too close to equality to be computed
Clear(u, v, b) == LET x == Dot3(u, v) IN
    x <= 0 \/ 1000 * (Abs(x * x * b[2] * b[2] - (b[2] - b[1]) * (b[2] - b[1]) * N2(u) * N2(v)) \div (b[2] * b[2])) >= N2(u) * N2(v)
Meet2(u, v) == 100 * N2(Cross3(u, v)) >= N2(u) * N2(v)

WideBy(S, b) == \E i, j \in S : Apart(Dir(i), Dir(j), b)
Wide(S) == WideBy(S, bar)
Enough(S) == Cardinality(S) >= Min2(need, N)
Robust(S) == Enough(S) /\ Wide(S)
Meet(S) == \E i, j \in S : Meet2(Dir(i), Dir(j))

(*-------------------------------- actions --------------------------------*)
Init == eyes = <<>> /\ need \in Needs /\ bar \in Bars /\ n = 0
Fits(d) == \A i \in 1..N : Clear(d, Dir(i), bar)
Look(d, k) == N < MaxEyes /\ Fits(d) /\ eyes' = Append(eyes, [d |-> d, of |-> k])
Drop(i) == N > 3 /\ eyes' = SubSeq(eyes, 1, i - 1) \o SubSeq(eyes, i + 1, N)
Leave(i) == eyes[i].of # 0 /\ eyes' = [eyes EXCEPT ![i].of = 0]
Take(i, k) == eyes[i].of = 0 /\ eyes' = [eyes EXCEPT ![i].of = k]
Join == Of(2) # {} /\ eyes' = [i \in 1..N |-> [eyes[i] EXCEPT !.of = IF @ = 2 THEN 1 ELSE @]]
Far(i) == N2(Dir(i)) <= 48 /\ eyes' = [eyes EXCEPT ![i].d = Scale3(2, @)]

Next ==
    /\ n < Steps /\ n' = n + 1 /\ UNCHANGED <<need, bar>>
    /\ \/ \E d \in Pick(Dirs), k \in 0..2 : Look(d, k)
       \/ \E i \in Pick(1..N) : Drop(i) \/ Leave(i) \/ Far(i)
       \/ \E i \in Pick(1..N) : \E k \in 1..2 : Take(i, k)
       \/ Join
Spec == Init /\ [][Next]_vars

(*----------------------------- laws of the spec --------------------------*)
TypeOK == N <= MaxEyes /\ \A i \in 1..N : Dir(i) # Zero3 /\ eyes[i].of \in 0..2
\* one observation is never enough, nor are several from one place
Alone == \A k \in 1..2 : Robust(Of(k)) => \E i, j \in Of(k) : Dir(i) # Dir(j)
\* what is wide without a view is wide with it
Without == \A k \in 1..2 : \A i \in Of(k) : Wide(Of(k) \ {i}) => Wide(Of(k))
\* two landmarks of which one is robust make a robust one
Merged == (Robust(Of(1)) \/ Robust(Of(2))) => Robust(Of(1) \cup Of(2))
\* a lower bar keeps what a higher one kept
Lower == \A b \in Bars : (b[1] * bar[2] <= bar[1] * b[2] /\ Wide(Of(1))) => WideBy(Of(1), b)
\* only directions count, neither distances nor the order of the views
Distance == \A i \in 1..N : \A j \in 1..N : Apart(Dir(i), Dir(j), bar) = Apart(Scale3(2, Dir(i)), Dir(j), bar)
Symmetric == \A i, j \in 1..N : Apart(Dir(i), Dir(j), bar) = Apart(Dir(j), Dir(i), bar)
\* growing a landmark leaves it wide, and so does a change of distance
Grown == [][(n' = n + 1 /\ Of(1) \subseteq {i \in 1..Len(eyes') : eyes'[i].of = 1} /\ N <= Len(eyes')) =>
            (Wide(Of(1)) => (Wide(Of(1)))')]_vars

(*------------------------------ the vectors ------------------------------*)
Emit == N >= 3 =>
    PrintT("VEC" \o ToJson([
        eyes |-> [i \in 1..N |-> <<Dir(i), eyes[i].of>>], need |-> need, bar |-> bar,
        robust |-> <<Robust(Of(1)), Robust(Of(2))>>,
        merged |-> Robust(Of(1) \cup Of(2)),
        meet |-> <<Meet(Of(1)), Meet(Of(2)), Meet(Of(1) \cup Of(2))>>,
        \* how many pairs are far apart, by landmark
        pairs |-> [k \in 1..2 |-> Cardinality({p \in Of(k) \X Of(k) : p[1] < p[2] /\ Apart(Dir(p[1]), Dir(p[2]), bar)})],
        \* without each of its views: wide, and the rays meet
        less |-> [i \in 1..N |-> The({ <<Wide(S), Meet(S)>> : S \in {Of(eyes[i].of) \ {i}} })]]))
=============================================================================
