----------------------------- MODULE StabilizeMC ----------------------------
(* The rule itself, for small numbers. *)
EXTENDS Stabilize, FiniteSets
CONSTANTS Values, Limit
VARIABLES seen
Init == Begin /\ seen = <<>>
Next == \/ Len(seen) < Limit /\ \E m \in [1..Width -> Values] : Iterate(m, FALSE) /\ seen' = Append(seen, m)
        \/ Rest /\ UNCHANGED seen
Spec == Init /\ [][Next]_<<best, quiet, stopped, seen>> /\ WF_<<best, quiet, stopped, seen>>(Next)
Smallest(i, k) == CHOOSE v \in Values \cup {Never} : (v = Never /\ k = 0) \/ (k > 0 /\ \A j \in 1..k : v <= seen[j][i] /\ \E l \in 1..k : v = seen[l][i])
\* iteration k improved on what went before
Improved(k) == \E i \in 1..Width : k = 1 \/ \A j \in 1..(k - 1) : seen[k][i] < seen[j][i]
BestIsSmallest == \A i \in 1..Width : Len(seen) > 0 => best[i] \in {seen[j][i] : j \in 1..Len(seen)} /\ \A j \in 1..Len(seen) : best[i] <= seen[j][i]
\* it stops exactly when the last Patience iterations did not improve
StopsRight == stopped <=> (Len(seen) >= Patience + 1 /\ \A k \in (Len(seen) - Patience + 1)..Len(seen) : ~Improved(k))
NeverEarly == stopped => Len(seen) > Patience
QuietRight == quiet <= Patience /\ (Len(seen) > quiet => Improved(Len(seen) - quiet) \/ seen = <<>>)
\* magnitudes can improve only so often
Bounded == ~stopped => Len(seen) <= Patience * (Width * Cardinality(Values) + 1)
=============================================================================
