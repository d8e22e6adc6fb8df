--------------------------- MODULE StabilizeTrace ---------------------------
(* Recorded runs of the implementation are behaviours of Stabilize.  An event is an iteration, with the ranks of the
   magnitudes it saw within its run; `moved' tells whether the pose changed: "yes", "no", or "unclear". *)
EXTENDS Stabilize, IOUtils, Json, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE i
Init == Begin /\ i = 1
Fits(e) == /\ e.moved = "yes" => ~stopped'
           /\ e.moved = "no" => stopped'
Event == /\ i <= Len(Trace)
         /\ \E e \in {Trace[i]} :
              \/ e.op = "begin" /\ best' = [k \in 1..e.width |-> Never] /\ quiet' = 0 /\ stopped' = FALSE
              \/ e.op = "iterate" /\ (Iterate(e.m, TRUE) \/ Rest) /\ Fits(e)
         /\ i' = i + 1
Spec == Init /\ [][Event]_<<best, quiet, stopped, i>>
\* some behaviour accounts for every event
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
