---------------------------- MODULE SessionTrace ----------------------------
(* Recorded sessions of the implementation are behaviours of Session. *)
EXTENDS SessionMC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE i
Set(s) == {s[k] : k \in DOMAIN s}
Read(j) == [views |-> Set(j.views), blocks |-> {<<x[1], Set(x[2])>> : x \in Set(j.blocks)}, cons |-> {Set(t) : t \in Set(j.cons)}]
Begin == shots = <<>> /\ recs = {} /\ mode = [window |-> 0, minnew |-> 1] /\ i = 1
Restart(e) == e.op = "reset" /\ shots' = <<>> /\ recs' = {} /\ mode' = e.mode
Added(e) ==
    /\ e.op = "add"
    /\ \E sh \in {Append(shots, [feed |-> e.feed, sees |-> Set(e.sees), wrong |-> Set(e.wrong), far |-> e.far])}, N \in {{Read(j) : j \in Set(e.recs)}} :
         \* the specification does not say what becomes of reconstructions which meet in a frame
         /\ Cardinality(Hosts(sh, recs)) <= 1 => \E O \in {Outcomes(sh, recs)} : N \in O
         /\ shots' = sh /\ recs' = N
    /\ UNCHANGED mode
Event == /\ i <= Len(Trace)
         /\ \E e \in {Trace[i]} : Restart(e) \/ Added(e)
         /\ i' = i + 1
TraceSpec == Begin /\ [][Event]_<<shots, recs, mode, i>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
