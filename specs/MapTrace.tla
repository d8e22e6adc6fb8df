------------------------------ MODULE MapTrace ------------------------------
(* Recorded histories of the implementation's tables are behaviours of Map, also where the scene leaves an outcome open. *)
EXTENDS MapMC, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
VARIABLE i
Set(s) == {s[k] : k \in DOMAIN s}
Block(b) == {<<o[1], o[2]>> : o \in Set(b)}
Read(j) == [live |-> j.live, views |-> Set(j.views), blocks |-> {Block(b) : b \in Set(j.blocks)},
            cons |-> The({[t \in {p[1] : p \in P} |-> The({p[2] : p \in {q \in P : q[1] = t}})] :
                          P \in {{<<Set(c[1]), c[2]>> : c \in Set(j.cons)}}})]
\* an operation on the reconstruction R which results in S
One3(e) == {<<x[1], x[2], x[3]>> : x \in Set(e.m)}
Views(e) == {<<x[1], {Block(b) : b \in Set(x[2])}>> : x \in Set(e.m)}
Marks(e) == {<<Block(x[1]), Block(x[2])>> : x \in Set(e.m)}
Fits(e, R, S) ==
    CASE e.op = "init" -> R = Dead /\ S = RInit(e.c, e.f, e.s, One3(e))
      [] e.op = "view" -> S = RView(R, e.f, Views(e))
      [] e.op = "drop" -> S = RDrop(R, e.f)
      [] e.op = "remove" -> S = Dead
      [] e.op = "split" -> \E o \in {<<e.o[1], e.o[2]>>} : \E b \in {BlockOf(R, o)} : S = RSplitOne(R, b, o) /\ (e.did <=> b # {o})
      [] e.op = "splitall" -> S = RSplitAll(R, {Block(e.b)})
      [] e.op = "merge" -> S = RMerge(R, Block(e.a), Block(e.b))
      [] e.op = "dedup" -> DedupOk(R, Block(e.a), Block(e.b), S, e.merged)
      [] e.op = "filterobs" -> /\ e.kept <=> S.live
                               /\ IF S.live THEN FilterOk(R, S) /\ Survives(S)
                                  \* a reconstruction that would survive the most cautious filter survives
                                  ELSE S = Dead /\ \E Least \in {RSplitAll(R, Ruined(R))} : ~Survives(Least)
      [] e.op = "filtermarks" -> WeakOk(R, S)
      [] e.op = "record" -> Exact(R) /\ S = RRecord(R, e.v) /\ (e.did <=> Enough(R, e.v))
      [] e.op = "optimise" -> S = ROptimised(R) /\ (e.kept <=> S.live)
      [] e.op = "regenerate" -> /\ e.kept <=> S.live
                                /\ Exact(R) /\ \A v \in R.views : Enough(R, v)
                                /\ \E T \in {ROptimised(RRegenerated(R))} : S = IF T.live THEN KeepOrDrop(T) ELSE Dead
      [] e.op \in {"normalise", "pull", "resize"} -> S = R
      [] OTHER -> FALSE
Joins(e, D, S, T) == \E J \in {RJoin(D, S, Marks(e))} : \E V \in {S.views} :
    IF \A v \in V : Enough(J, v) THEN T = RRecordAll(J, V) ELSE T = RDrops(J, V)
\* the tables as they were read after event i
Tables == [r \in Ids |-> Read(Trace[i].recs[r])]
Begin == recs = [r \in Ids |-> Dead] /\ i = 1 /\ plan = NoPlan /\ hist = <<>> /\ n = 0
Event == /\ i <= Len(Trace)
         /\ \E e \in {Trace[i]}, N \in {Tables} :
              /\ \/ e.op = "reset" /\ \A r \in Ids : N[r] = Dead
                 \/ e.op = "join" /\ N[e.s] = Dead /\ Joins(e, recs[e.d], recs[e.s], N[e.d])
                    /\ \A r \in Ids \ {e.s, e.d} : N[r] = recs[r]
                 \/ e.op \notin {"reset", "join"} /\ Fits(e, recs[e.r], N[e.r]) /\ \A r \in Ids \ {e.r} : N[r] = recs[r]
              /\ recs' = N
         /\ i' = i + 1 /\ UNCHANGED <<plan, hist, n>>
TraceSpec == Begin /\ [][Event]_<<recs, plan, hist, n, i>>
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
