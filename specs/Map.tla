--------------------------------- MODULE Map ---------------------------------
(***************************************************************************)
(* The map which visual SLAM builds: reconstructions, made of views (a     *)
(* frame which has been given a pose), of landmarks (sets of observations, *)
(* an observation being a feature of a view) and of three-view constraints.*)
(*                                                                         *)
(* What the implementation keeps as tables of keys which refer to one      *)
(* another is, here, a partition: the landmarks of a reconstruction        *)
(* partition the observations of its views, and no landmark has two        *)
(* observations in one view.  Every operation is an operation on           *)
(* partitions; the implementation's tables have to represent the result.   *)
(*                                                                         *)
(* The scene is exact: feature i of frame f is the direction from          *)
(* Centres[f] to Points[Sees[f][i]].  So it is decided which observations  *)
(* are consistent with one another, which landmarks are robust and which   *)
(* triples of views can be constrained.                                    *)
(*                                                                         *)
(* Registration collects matches first (`plan') and then commits them.     *)
(***************************************************************************)
EXTENDS Geo
CONSTANTS NF, K, MR, Centres, Qs, Points, Sees,
          MinRobust,   \* robust landmarks a reconstruction needs to survive filtering
          MinObs,      \* observations a robust landmark needs (or as many as there are views)
          MinCovis,    \* landmarks a three-view constraint needs
          MinPairs,    \* pairs of them which are seen in different directions
          MinNew,      \* constraints a new view needs
          Steps, Pick(_),
          EmitOne(_)   \* whether to write this step out
VARIABLES recs, plan, hist, n
vars == <<recs, plan, hist, n>>

Frames == 1..NF
Feats == 1..K
Ids == 1..MR
Obs(V) == {<<f, i>> : f \in V, i \in Feats}
Id(o) == Sees[o[1]][o[2]]
Dir(o) == Sub3(Points[Id(o)], Centres[o[1]])
Singles(b) == {{o} : o \in b}
ViewsOf(b) == {o[1] : o \in b}
Sharing(a, b) == ViewsOf(a) \cap ViewsOf(b)

\* What the scene has to satisfy so that different points can be told apart.
ASSUME \A f \in Frames, g \in Frames : f # g =>
    \A i \in Feats, j \in Feats :
        IF Id(<<f, i>>) = Id(<<g, j>>) THEN ~Parallel(Dir(<<f, i>>), Dir(<<g, j>>))
        ELSE Triple(Sub3(Centres[g], Centres[f]), Dir(<<f, i>>), Dir(<<g, j>>)) # 0
ASSUME \A f \in Frames, i \in Feats, j \in Feats : i # j => ~Parallel(Dir(<<f, i>>), Dir(<<f, j>>))

(*------------------------------ landmarks ---------------------------------*)
Consistent(b) == \A o \in b, p \in b : Id(o) = Id(p)
Skew(b) == \E o \in b, p \in b : ~Parallel(Dir(o), Dir(p))
Robust(R, b) == Cardinality(b) >= Min2(MinObs, Cardinality(R.views)) /\ Skew(b)
Robusts(R) == {b \in R.blocks : Robust(R, b)}
BlockOf(R, o) == CHOOSE b \in R.blocks : o \in b
Exact(R) == \A b \in R.blocks : Consistent(b)

(*------------------------------ constraints -------------------------------*)
\* a bag of triples of views
NoCons == [t \in {} |-> 0]
AddCon(c, t) == [x \in DOMAIN c \cup {t} |-> (IF x \in DOMAIN c THEN c[x] ELSE 0) + (IF x = t THEN 1 ELSE 0)]
AddCons(c, New0) == The({[x \in DOMAIN c \cup T |-> (IF x \in DOMAIN c THEN c[x] ELSE 0) + (IF x \in T THEN 1 ELSE 0)] : T \in {New0}})
Common(B, t) == {b \in B : t \subseteq ViewsOf(b)}
Pairs(L) == (Cardinality(L) * (Cardinality(L) - 1)) \div 2
Constrainable(B, t) == \E L \in {Common(B, t)} : Cardinality(L) >= MinCovis /\ Pairs(L) >= MinPairs
\* the triples with v for which there are enough common robust landmarks
Triples(V, v) == {{v} \cup p : p \in {q \in SUBSET (V \ {v}) : Cardinality(q) = 2}}
New(R, v) == UNION {{t \in Triples(R.views, v) : Constrainable(B, t)} : B \in {Robusts(R)}}
Enough(R, v) == \E c \in {Cardinality(New(R, v))} : c >= MinNew \/ c + 1 >= Cardinality(R.views)

(*------------------------------ operations --------------------------------*)
Dead == [live |-> FALSE, views |-> {}, blocks |-> {}, cons |-> NoCons]
Planned(m) == {x[1] : x \in m}
\* m: pairs of a feature and the set of one or two landmarks it belongs to
RView(R, f, m) == [R EXCEPT !.views = @ \cup {f},
    !.blocks = (@ \ UNION {x[2] : x \in m}) \cup {UNION x[2] \cup {<<f, x[1]>>} : x \in m} \cup {{<<f, i>>} : i \in Feats \ Planned(m)}]
\* m: triples of a feature of the centre, of the first and of the second frame, 0 where there is none
RInit(c, f, s, m) ==
    LET rows == {{<<c, x[1]>>} \cup (IF x[2] = 0 THEN {} ELSE {<<f, x[2]>>}) \cup (IF x[3] = 0 THEN {} ELSE {<<s, x[3]>>}) : x \in m}
    IN [live |-> TRUE, views |-> {c, f, s}, cons |-> AddCon(NoCons, {c, f, s}),
        blocks |-> rows \cup Singles(Obs({c, f, s}) \ UNION rows)]
RDrop(R, f) == [R EXCEPT !.views = @ \ {f}, !.blocks = {b \ Obs({f}) : b \in @} \ {{}},
    !.cons = [t \in {t \in DOMAIN @ : f \notin t} |-> @[t]]]
RDrops(R, V) == [R EXCEPT !.views = @ \ V, !.blocks = {b \ Obs(V) : b \in @} \ {{}},
    !.cons = [t \in {t \in DOMAIN @ : t \cap V = {}} |-> @[t]]]
RSplitOne(R, b, o) == [R EXCEPT !.blocks = IF b = {o} THEN @ ELSE (@ \ {b}) \cup {b \ {o}, {o}}]
RSplitAll(R, B) == [R EXCEPT !.blocks = (@ \ B) \cup UNION {Singles(b) : b \in B}]
RMerge(R, a, b) == [R EXCEPT !.blocks = (@ \ {a, b}) \cup {a \cup b}]
\* all of src goes into dest; m: pairs of a landmark of src and the one of dest which it is
RJoin(D, S, m) == [D EXCEPT !.views = @ \cup S.views,
    !.blocks = (@ \ {x[2] : x \in m}) \cup {x[1] \cup x[2] : x \in m} \cup (S.blocks \ {x[1] : x \in m})]
RRecord(R, v) == IF Enough(R, v) THEN [R EXCEPT !.cons = AddCons(@, New(R, v))] ELSE R
\* the constraints of each of the views V, none of which is refused
RRecordAll(R, V) == [R EXCEPT !.cons =
    The({[x \in DOMAIN @ \cup {p[2] : p \in N} |-> (IF x \in DOMAIN @ THEN @[x] ELSE 0) + Cardinality({p \in N : p[2] = x})] :
            N \in {UNION {{<<v, t>> : t \in New(R, v)} : v \in V}}})]

(*-------- outcomes that the scene leaves open are sets of outcomes --------*)
\* Filtering observations: what is consistent stays as it is; an inconsistent pair is split, and of a larger inconsistent
\* landmark at least one observation.
FilterOk(R, S) == /\ S.views = R.views /\ S.cons = R.cons
                  /\ \A b \in R.blocks :
                       \/ Consistent(b) /\ b \in S.blocks
                       \/ /\ ~Consistent(b)
                          /\ \E P \in {{c \in S.blocks : c \subseteq b}} :
                                /\ UNION P = b /\ b \notin P
                                /\ Cardinality({c \in P : Cardinality(c) > 1}) <= (IF Cardinality(b) > 2 THEN 1 ELSE 0)
Ruined(R) == {b \in R.blocks : ~Consistent(b)}
\* a reconstruction with too few robust landmarks is given up
Survives(R) == Cardinality(Robusts(R)) >= MinRobust
KeepOrDrop(R) == IF Survives(R) THEN R ELSE Dead
\* Filtering landmarks: consistent robust ones stay, those which are not robust are split, robust but inconsistent ones either way.
Weak(R) == {b \in R.blocks : ~Robust(R, b)}
WeakOk(R, S) == /\ S.views = R.views /\ S.cons = R.cons
                /\ \E W \in SUBSET {b \in R.blocks : Robust(R, b) /\ ~Consistent(b)} : S.blocks = RSplitAll(R, Weak(R) \cup W).blocks
\* Merging landmarks which share views: of each shared view the worse observation is put aside, unless it is the last of its
\* landmark; then there is no merge.  How bad an observation is: alone 2, consistent 0, otherwise in between.
Grade(b) == IF Cardinality(b) = 1 THEN 2 ELSE IF Consistent(b) THEN 0 ELSE 1
Picks(a, b, V) == {T \in SUBSET ((a \cup b) \cap Obs(V)) : \A v \in V : Cardinality({o \in T : o[1] = v}) <= 1}
DedupOk(R, a, b, S, merged) ==
    \E D \in {Sharing(a, b)} :
      /\ S.views = R.views /\ S.cons = R.cons
      /\ \E T \in Picks(a, b, D) :
            /\ a \ T # {} /\ b \ T # {}
            /\ merged => Cardinality(T) = Cardinality(D)
            /\ ~merged => D # {} /\ Cardinality(T) < Cardinality(D) /\ (Cardinality(a \ T) = 1 \/ Cardinality(b \ T) = 1)
            /\ S.blocks = (R.blocks \ {a, b}) \cup Singles(T) \cup (IF merged THEN {(a \cup b) \ T} ELSE {a \ T, b \ T})
            \* the better one of two stays
            /\ Cardinality(D) = 1 /\ merged /\ Grade(a) # Grade(b) /\ (Grade(a) = 0 \/ Grade(b) = 0)
                 => T \subseteq IF Grade(a) < Grade(b) THEN b ELSE a
\* Optimising: views without constraints go, and with fewer than three left so does the reconstruction.
Bound(R) == UNION DOMAIN R.cons
ROptimised(R) == IF Cardinality(Bound(R) \cap R.views) >= 3 THEN RDrops(R, R.views \ Bound(R)) ELSE Dead
RRegenerated(R) == \* only where no view is refused: the order in which they are visited is not determined
    RRecordAll([R EXCEPT !.cons = NoCons], R.views)

(*--------------------------- pulling on the views -------------------------*)
\* How often the constraints relate two views, in each direction.
RECURSIVE SumOn(_, _)
SumOn(c, T) == IF T = {} THEN 0 ELSE LET t == CHOOSE t \in T : TRUE IN c[t] + SumOn(c, T \ {t})
Tie(R, u, o) == SumOn(R.cons, {t \in DOMAIN R.cons : {u, o} \subseteq t})
\* One view is displaced by a motion D of the world.  Each step of optimising moves every view by a share 1/d of what all edges
\* into it ask for, all at once.  What they ask for is a share of D, so a[u] / d^k, the share by which view u is displaced
\* after k steps, is all there is to know (where D is a rotation, for one step: shares are of translation and angle).
RECURSIVE Asked(_, _, _, _)
Asked(R, a, u, V) == IF V = {} THEN 0 ELSE LET o == CHOOSE o \in V : TRUE IN Tie(R, u, o) * (a[o] - a[u]) + Asked(R, a, u, V \ {o})
StepBy(R, d, a) == The({[u \in V |-> d * a[u] + Asked(R, a, u, V \ {u})] : V \in {R.views}})
RECURSIVE Pulled(_, _, _, _)
Pulled(R, d, a, k) == IF k = 0 THEN a ELSE The({Pulled(R, d, b, k - 1) : b \in {StepBy(R, d, a)}})
Alone(R, v) == [u \in R.views |-> IF u = v THEN 1 ELSE 0]

(*------------------------------ behaviours --------------------------------*)
NoPlan == [kind |-> "none"]
Live(r) == recs[r].live
Used == UNION {recs[r].views : r \in Ids}
Free == Frames \ Used
Vacant == {r \in Ids : ~Live(r)}
Shot(R) == [live |-> R.live, views |-> R.views, blocks |-> R.blocks, cons |-> {<<t, R.cons[t]>> : t \in DOMAIN R.cons}, robust |-> Robusts(R)]
Log(e) == hist' = Append(hist, e @@ [recs |-> [r \in Ids |-> Shot(recs'[r])]])
Put(r, R) == recs' = [recs EXCEPT ![r] = R]
Idle == plan = NoPlan
Quiet == UNCHANGED plan

Init == recs = [r \in Ids |-> Dead] /\ plan = NoPlan /\ hist = <<>> /\ n = 0

PlanInit(c, f, s) == /\ Idle /\ Vacant # {} /\ {c, f, s} \subseteq Free /\ Cardinality({c, f, s}) = 3
                     /\ plan' = [kind |-> "init", c |-> c, f |-> f, s |-> s, m |-> {}]
                     /\ UNCHANGED <<recs, hist>>
PlanView(r, f) == /\ Idle /\ Live(r) /\ f \in Free /\ Cardinality(recs[r].views) > 0
                  /\ plan' = [kind |-> "view", r |-> r, f |-> f, m |-> {}]
                  /\ UNCHANGED <<recs, hist>>
PlanJoin(s, d) == /\ Idle /\ s # d /\ Live(s) /\ Live(d)
                  /\ plan' = [kind |-> "join", s |-> s, d |-> d, m |-> {}]
                  /\ UNCHANGED <<recs, hist>>
Plan(x) == plan' = [plan EXCEPT !.m = @ \cup x] /\ UNCHANGED <<recs, hist>>
\* one match, right or wrong
Match3(i, j, k) == /\ plan.kind = "init" /\ ~(\E x \in plan.m : x[1] = i \/ (j > 0 /\ x[2] = j) \/ (k > 0 /\ x[3] = k)) /\ j + k > 0
                   /\ Plan({<<i, j, k>>})
Taken == UNION {x[2] : x \in plan.m}
Match(i, B) == /\ plan.kind = "view" /\ i \notin Planned(plan.m) /\ B \cap Taken = {} /\ Cardinality(B) \in 1..2
               /\ \A a \in B, b \in B : a = b \/ Sharing(a, b) = {}
               /\ Plan({<<i, B>>})
MatchJoin(b, d) == /\ plan.kind = "join" /\ ~(\E x \in plan.m : x[1] = b \/ x[2] = d)
                   /\ Plan({<<b, d>>})
\* all the right ones at once
RightMatch == /\ plan.kind # "none" /\ plan.m = {}
              /\ \/ /\ plan.kind = "init"
                    /\ \E At \in {[f \in Frames |-> [p \in 1..Len(Points) |-> IF \E i \in Feats : Id(<<f, i>>) = p
                                                                 THEN CHOOSE i \in Feats : Id(<<f, i>>) = p ELSE 0]]} :
                       Plan({x \in {<<i, At[plan.f][Id(<<plan.c, i>>)], At[plan.s][Id(<<plan.c, i>>)]>> : i \in Feats} : x[2] + x[3] > 0})
                 \/ /\ plan.kind = "view"
                    /\ \E R \in {recs[plan.r]} :
                       \E Of \in {[i \in Feats |-> {b \in R.blocks : Consistent(b) /\ \E o \in b : Id(o) = Id(<<plan.f, i>>)}]} :
                       \* the largest of them
                       \E Big \in {[i \in Feats |-> {b \in Of[i] : \A c \in Of[i] : Cardinality(c) <= Cardinality(b)}]} :
                       Plan({<<i, {CHOOSE b \in Big[i] : TRUE}>> : i \in {j \in Feats : Of[j] # {}}})
                 \/ /\ plan.kind = "join"
                    /\ \E One \in {[p \in 1..Len(Points) |->
                           <<{b \in recs[plan.s].blocks : Consistent(b) /\ \E o \in b : Id(o) = p},
                             {b \in recs[plan.d].blocks : Consistent(b) /\ \E o \in b : Id(o) = p}>>]} :
                       Plan({<<CHOOSE b \in One[p][1] : TRUE, CHOOSE b \in One[p][2] : TRUE>> :
                             p \in {q \in 1..Len(Points) : One[q][1] # {} /\ One[q][2] # {}}})
Commit ==
    /\ plan.kind # "none" /\ plan' = NoPlan
    /\ \/ /\ plan.kind = "init"
          /\ \E r \in {CHOOSE v \in Vacant : \A w \in Vacant : v <= w} :
             /\ Put(r, RInit(plan.c, plan.f, plan.s, plan.m))
             /\ Log([op |-> "init", r |-> r, c |-> plan.c, f |-> plan.f, s |-> plan.s, m |-> plan.m])
       \/ /\ plan.kind = "view"
          /\ Put(plan.r, RView(recs[plan.r], plan.f, plan.m))
          /\ Log([op |-> "view", r |-> plan.r, f |-> plan.f, m |-> plan.m])
       \/ /\ plan.kind = "join"
          /\ \E D \in {RJoin(recs[plan.d], recs[plan.s], plan.m)} :
             \* which views are refused is determined if all are accepted, or if none can be constrained at all
             /\ Exact(D)
             /\ \E V \in {recs[plan.s].views} :
                \/ /\ \A v \in V : Enough(D, v)
                   /\ recs' = [recs EXCEPT ![plan.d] = RRecordAll(D, V), ![plan.s] = Dead]
                \/ /\ \A v \in V : ~Enough(D, v) /\ New(D, v) = {}
                   /\ Cardinality(recs[plan.d].views) >= 2 /\ MinNew > 0
                   /\ recs' = [recs EXCEPT ![plan.d] = RDrops(D, V), ![plan.s] = Dead]
          /\ Log([op |-> "join", s |-> plan.s, d |-> plan.d, m |-> plan.m])
Abandon == plan.kind # "none" /\ plan' = NoPlan /\ UNCHANGED <<recs, hist>>

Drop(r, f) == Idle /\ Live(r) /\ f \in recs[r].views /\ Put(r, RDrop(recs[r], f)) /\ Quiet /\ Log([op |-> "drop", r |-> r, f |-> f])
Remove(r) == Idle /\ Live(r) /\ Put(r, Dead) /\ Quiet /\ Log([op |-> "remove", r |-> r])
Split(r, o) == /\ Idle /\ Live(r) /\ o[1] \in recs[r].views
               /\ \E b \in {BlockOf(recs[r], o)} : /\ Put(r, RSplitOne(recs[r], b, o))
                     /\ Quiet /\ Log([op |-> "split", r |-> r, o |-> o, did |-> b # {o}])
SplitAll(r, b) == Idle /\ Live(r) /\ b \in recs[r].blocks /\ Put(r, RSplitAll(recs[r], {b})) /\ Quiet /\ Log([op |-> "splitall", r |-> r, b |-> b])
Merge(r, a, b) == /\ Idle /\ Live(r) /\ a # b /\ {a, b} \subseteq recs[r].blocks /\ Sharing(a, b) = {}
                  /\ Put(r, RMerge(recs[r], a, b)) /\ Quiet /\ Log([op |-> "merge", r |-> r, a |-> a, b |-> b])
\* an outcome which the scene does not determine is marked as loose
Dedup(r, a, b) ==
    /\ Idle /\ Live(r) /\ a # b /\ {a, b} \subseteq recs[r].blocks
    /\ \E R \in {recs[r]}, D \in {Sharing(a, b)} :
       \/ /\ D = {} /\ Put(r, RMerge(R, a, b))
          /\ Quiet /\ Log([op |-> "dedup", r |-> r, a |-> a, b |-> b, merged |-> TRUE, loose |-> FALSE])
       \/ /\ Cardinality(D) = 1 /\ Quiet
          /\ \E x \in a \cap Obs(D), y \in b \cap Obs(D) :
             \E worse \in {IF Grade(a) > Grade(b) THEN x ELSE y} :
             \E of \in {IF worse \in a THEN a ELSE b} :
             \E tight \in {(Grade(a) # Grade(b) /\ (Grade(a) = 0 \/ Grade(b) = 0)) \/ (Cardinality(a) = 1 /\ Cardinality(b) = 1)} :
             \* the last observation of a landmark is not put aside
             IF Cardinality(of) = 1 THEN Put(r, R) /\ Log([op |-> "dedup", r |-> r, a |-> a, b |-> b, merged |-> FALSE, loose |-> ~tight])
             ELSE /\ Put(r, [R EXCEPT !.blocks = (@ \ {a, b}) \cup {(a \cup b) \ {worse}, {worse}}])
                  /\ Log([op |-> "dedup", r |-> r, a |-> a, b |-> b, merged |-> TRUE, loose |-> ~tight])
FilterObs(r) == /\ Idle /\ Live(r) /\ Quiet
                /\ \E S \in {RSplitAll(recs[r], Ruined(recs[r]))} :
                     /\ Put(r, KeepOrDrop(S))
                     /\ Log([op |-> "filterobs", r |-> r, kept |-> Survives(S), loose |-> \E b \in Ruined(recs[r]) : Cardinality(b) > 2])
FilterMarks(r) == /\ Idle /\ Live(r) /\ Quiet
                  /\ Put(r, RSplitAll(recs[r], Weak(recs[r])))
                  /\ Log([op |-> "filtermarks", r |-> r, loose |-> \E b \in recs[r].blocks : Robust(recs[r], b) /\ ~Consistent(b)])
Record(r, v) == /\ Idle /\ Live(r) /\ v \in recs[r].views /\ Exact(recs[r]) /\ Quiet
                /\ Put(r, RRecord(recs[r], v))
                /\ Log([op |-> "record", r |-> r, v |-> v, did |-> Enough(recs[r], v)])
Optimise(r) == /\ Idle /\ Live(r) /\ Quiet
               /\ Put(r, ROptimised(recs[r]))
               /\ Log([op |-> "optimise", r |-> r, kept |-> recs'[r].live])
Regenerate(r) == /\ Idle /\ Live(r) /\ Exact(recs[r]) /\ Quiet /\ recs[r].views # {}
                 /\ \A v \in recs[r].views : Enough(recs[r], v)
                 /\ \E S \in {ROptimised(RRegenerated(recs[r]))} :
                      \E T \in {IF S.live THEN KeepOrDrop(S) ELSE Dead} :
                      Put(r, T) /\ Log([op |-> "regenerate", r |-> r, kept |-> T.live])
\* the poses are put back afterwards
Rate == 32
Pull(r, v, k) == /\ Idle /\ Live(r) /\ Quiet /\ Exact(recs[r]) /\ v \in recs[r].views /\ UNCHANGED recs
                 /\ \E R \in {recs[r]} : /\ R.views \subseteq Bound(R) /\ Cardinality(R.views) >= 3
                      /\ \E a \in {Pulled(R, Rate, Alone(R, v), k)} :
                           Log([op |-> "pull", r |-> r, v |-> v, k |-> k, rate |-> Rate, a |-> {<<u, a[u]>> : u \in R.views}])
\* constraints of v made while the views are out of place; they are forgotten afterwards
Resize(r, v) == /\ Idle /\ Live(r) /\ Quiet /\ Exact(recs[r]) /\ v \in recs[r].views /\ UNCHANGED recs
                /\ \E N \in {New(recs[r], v)} : N # {} /\ Enough(recs[r], v) /\ Log([op |-> "resize", r |-> r, v |-> v, new |-> N])
Normalise(r) == /\ Idle /\ Live(r) /\ Exact(recs[r]) /\ recs[r].views # {} /\ UNCHANGED <<recs, plan>> /\ Log([op |-> "normalise", r |-> r])

\* random choices that are to be rare
Seldom == 1 \in Pick({x \in 1..4 : n >= 0})
Finish == n = Steps - 1 /\ UNCHANGED <<recs, plan, hist>>
Blocks(r) == recs[r].blocks
Large(r) == {b \in recs[r].blocks : Cardinality(b) > 1}
Lives == {r \in Ids : Live(r)}
Next ==
    /\ n < Steps /\ n' = n + 1
    /\ \/ Finish
       \/ /\ n < Steps - 1
          /\ \/ UNCHANGED <<recs, plan, hist>>
             \/ \E c \in Pick(Free) : \E f \in Pick(Free \ {c}) : \E s \in Pick(Free \ {c, f}) : PlanInit(c, f, s)
             \/ \E c \in Pick(Free) : \E f \in Pick(Free \ {c}) : \E s \in Pick(Free \ {c, f}) : PlanInit(c, f, s)
             \/ \E r \in Pick(Lives), f \in Pick(Free) : PlanView(r, f)
             \/ \E r \in Pick(Lives), f \in Pick(Free) : PlanView(r, f)
             \/ \E s \in Pick(Lives) : \E d \in Pick(Lives \ {s}) : PlanJoin(s, d)
             \/ \E s \in Pick(Lives) : \E d \in Pick(Lives \ {s}) : PlanJoin(s, d)
             \/ \E s \in Pick(Lives) : \E d \in Pick(Lives \ {s}) : PlanJoin(s, d)
             \/ \E i \in Pick(Feats), j \in Pick(0..K), k \in Pick(0..K) : Match3(i, j, k)
             \/ plan.kind = "view" /\ \E i \in Pick(Feats \ Planned(plan.m)), a \in Pick(Blocks(plan.r) \ Taken) : Match(i, {a})
             \/ plan.kind = "view" /\ \E i \in Pick(Feats \ Planned(plan.m)), a \in Pick(Blocks(plan.r) \ Taken) :
                    \E b \in Pick({b \in Blocks(plan.r) \ Taken : Sharing(a, b) = {}}) : Match(i, {a, b})
             \/ plan.kind = "join" /\ \E a \in Pick(Blocks(plan.s)), b \in Pick(Blocks(plan.d)) : MatchJoin(a, b)
             \/ RightMatch
             \/ RightMatch
             \/ RightMatch
             \/ Commit
             \/ Commit
             \/ Seldom /\ Abandon
             \/ \E r \in Pick(Lives) : \E f \in Pick(recs[r].views) : Drop(r, f)
             \/ Seldom /\ \E r \in Pick(Lives) : Remove(r)
             \/ \E r \in Pick(Lives) : \E o \in Pick(Obs(recs[r].views)) : Split(r, o)
             \/ \E r \in Pick(Lives) : \E b \in Pick(Large(r)) : SplitAll(r, b)
             \/ \E r \in Pick(Lives) : \E a \in Pick(Blocks(r)) : \E b \in Pick({b \in Blocks(r) : Sharing(a, b) = {}}) : Merge(r, a, b)
             \/ \E r \in Pick(Lives) : \E a \in Pick(Large(r)) : \E b \in Pick(Large(r) \ {a}) : Dedup(r, a, b)
             \/ \E r \in Pick(Lives) : \E a \in Pick(Blocks(r)) : \E b \in Pick(Blocks(r) \ {a}) : Dedup(r, a, b)
             \/ \E r \in Pick(Lives) : FilterObs(r)
             \/ \E r \in Pick(Lives) : FilterMarks(r)
             \/ \E r \in Pick(Lives) : \E v \in Pick(recs[r].views) : Record(r, v)
             \/ \E r \in Pick(Lives) : \E v \in Pick(recs[r].views) : Record(r, v)
             \/ \E r \in Pick(Lives) : Optimise(r)
             \/ \E r \in Pick(Lives) : Regenerate(r)
             \/ \E r \in Pick(Lives) : Normalise(r)
             \/ \E r \in Pick(Lives) : \E v \in Pick(recs[r].views), k \in Pick(1..3) : Pull(r, v, k)
             \/ \E r \in Pick(Lives) : \E v \in Pick(recs[r].views) : Resize(r, v)
Spec == Init /\ [][Next]_vars

(*----------------------------- checked on the spec -----------------------*)
Partition == \A r \in Ids : \E R \in {recs[r]} :
    /\ {} \notin R.blocks /\ UNION R.blocks = Obs(R.views)
    /\ \A o \in Obs(R.views) : Cardinality({b \in R.blocks : o \in b}) = 1
OncePerView == \A r \in Ids : \A b \in recs[r].blocks : Cardinality(ViewsOf(b)) = Cardinality(b)
Disjoint == \A r \in Ids, s \in Ids : r # s => recs[r].views \cap recs[s].views = {}
Constrained == \A r \in Ids : \A t \in DOMAIN recs[r].cons : t \subseteq recs[r].views /\ Cardinality(t) = 3 /\ recs[r].cons[t] > 0
\* pulling moves no more one way than the other, and more than one step goes on where the last one ended
Balanced == \A r \in Ids : \E R \in {recs[r]} : \A v \in R.views : \E a \in {Pulled(R, Rate, Alone(R, v), 2)} :
    SumOn(a, R.views) = Rate * Rate /\ \A u \in R.views : \E b \in {Pulled(R, Rate, Alone(R, u), 1)} : b[v] = Pulled(R, Rate, Alone(R, v), 1)[u]
DeadIsEmpty == \A r \in Ids : ~Live(r) => recs[r] = Dead
\* the outcomes chosen here are among those allowed
Last == hist[Len(hist)]

Scene == [centres |-> Centres, qs |-> Qs, points |-> Points, sees |-> Sees, k |-> K, minrobust |-> MinRobust, minobs |-> MinObs, mincovis |-> MinCovis, minpairs |-> MinPairs, minnew |-> MinNew]
Emit == n = Steps => PrintT("VEC" \o ToJson([scene |-> Scene, hist |-> hist]))
\* every single step that is possible, each after the shortest way to it
EmitStep == Len(hist') > Len(hist) => PrintT("VEC" \o ToJson([scene |-> Scene, hist |-> hist']))
\* only those which try the constraints out
EmitPull == IF Len(hist') > Len(hist) /\ hist'[Len(hist')].op \in {"pull", "resize"} /\ EmitOne(n) THEN EmitStep ELSE TRUE
\* or a share of them
EmitSome == IF EmitOne(n) THEN EmitStep ELSE TRUE
\* what determines what can happen next
Now == <<recs, plan>>
FewCons == \A r \in Ids : \A t \in DOMAIN recs[r].cons : recs[r].cons[t] <= 1
=============================================================================
