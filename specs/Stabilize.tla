------------------------------ MODULE Stabilize -----------------------------
(***************************************************************************)
(* When an iterative refinement stops.  Every iteration it sees some       *)
(* magnitudes (of the sums of the moves asked for), and moves the pose,    *)
(* unless none of the magnitudes has been smaller than ever before for     *)
(* Patience iterations, when it stops for good; or it has made all the     *)
(* iterations it was allowed.                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Patience, Width
VARIABLES best,   \* the smallest value of each magnitude so far
          quiet,  \* iterations since one of them was that small
          stopped
svars == <<best, quiet, stopped>>
Never == 1000000
Begin == best = [i \in 1..Width |-> Never] /\ quiet = 0 /\ stopped = FALSE
Min(a, b) == IF a < b THEN a ELSE b
Less(m) == \E i \in 1..Len(m) : m[i] < best[i]
\* magnitudes that cannot be told apart may count as smaller or not
Tied(m) == \E i \in 1..Len(m) : m[i] = best[i]
Outcomes(m, ties) == IF Less(m) THEN {TRUE} ELSE IF ties /\ Tied(m) THEN {TRUE, FALSE} ELSE {FALSE}
\* one iteration that sees the magnitudes m
Iterate(m, ties) ==
    /\ ~stopped
    /\ best' = [i \in 1..Len(m) |-> Min(m[i], best[i])]
    /\ \E improved \in Outcomes(m, ties) :
        /\ quiet' = IF improved THEN 0 ELSE quiet + 1
        /\ stopped' = (~improved /\ quiet + 1 >= Patience)
Rest == stopped /\ UNCHANGED svars
=============================================================================
