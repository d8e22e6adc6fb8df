------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A session of visual SLAM: frames arrive one after the other; each one   *)
(* is registered in a reconstruction, or starts one with two of the frames *)
(* before it, or stays free; the frames still free are then tried again.   *)
(*                                                                         *)
(* The points of the scene come in bunches, which are seen as a whole:     *)
(* `Wide' ones have many points in many directions, `Narrow' ones many     *)
(* points in nearly one direction, and `Small' ones few points.  A frame   *)
(* may report a small bunch wrongly: it recognises the points, but not     *)
(* where they are.  Frames taken from far away see everything in nearly one *)
(* direction.  As all points of a bunch fare alike, a landmark of     *)
(* each of them is written as <<bunch, the set of frames that observe it>>.*)
(*                                                                         *)
(* Where the outcome of adding a frame depends on an order which is not    *)
(* promised, `Outcomes' is the set of all of them.                         *)
(***************************************************************************)
EXTENDS Geo
CONSTANTS Wide, Narrow, Small, Feeds,
          Windows,    \* how far back in the feed frames are compared, 0: with all frames of all feeds
          MinNews,    \* constraints a new view needs
          Sights,     \* sets of bunches seen in a frame
          Distances,  \* whether frames may be far away: TRUE, FALSE
          Steps, Pick(_)
VARIABLES shots, recs, mode
vars == <<shots, recs, mode>>

Bunches == Wide \cup Narrow \cup Small
Many == Wide \cup Narrow

Pos(sh, f) == Cardinality({g \in 1..f : sh[g].feed = sh[f].feed})
Considered(sh, f) == {g \in (1..Len(sh)) \ {f} :
    mode.window = 0 \/ (sh[g].feed = sh[f].feed /\ Abs(Pos(sh, g) - Pos(sh, f)) < mode.window)}
Right(sh, f) == sh[f].sees \ sh[f].wrong
\* many points in many directions
Spread(sh, f) == IF sh[f].far THEN {} ELSE Wide
Viewed(rs) == UNION {R.views : R \in rs}

(*------------------------------- landmarks --------------------------------*)
\* observed often enough, from different places
Robust(R, V) == Cardinality(V) >= Min2(3, Cardinality(R.views)) /\ Cardinality(V) >= 2
\* the landmarks of a bunch which are seen in some of the views W, joined: none, one, or two which do not share a view
Found(R, W, b) == {V \in {x[2] : x \in {y \in R.blocks : y[1] = b}} : V \cap W # {}}
Match(R, W, b) == The({ IF \/ Cardinality(L) = 1
                           \/ Cardinality(L) = 2 /\ \A U, V \in L : U = V \/ U \cap V = {}
                        THEN UNION L ELSE {} : L \in {Found(R, W, b)} })
\* what the new frame observes is consistent with what the others do
Agrees(sh, f, b, V) == V # {} /\ \A g \in V \cup {f} : b \in Right(sh, g)

(*------------------------------ registration ------------------------------*)
Registers(sh, R, W, f) == \E b \in Many \cap sh[f].sees : \E V \in {Match(R, W, b)} : Agrees(sh, f, b, V) /\ Robust(R, V)
\* each bunch the frame sees, with the landmark it is found to be of
Matches(sh, R, W, f) == {<<b, The({IF Agrees(sh, f, b, V) THEN V ELSE {} : V \in {Match(R, W, b)}})>> : b \in sh[f].sees}
AddView(sh, R, W, f) ==
    The({ [R EXCEPT !.views = @ \cup {f},
             !.blocks = {x \in @ : \A m \in M : m[1] # x[1] \/ x[2] \cap m[2] = {}} \cup {<<m[1], m[2] \cup {f}>> : m \in M}]
          : M \in {Matches(sh, R, W, f)} })
\* triples of views with f that have enough robust landmarks in common, in different directions
New(sh, R, f) == UNION {{t \in SUBSET x[2] : Cardinality(t) = 3 /\ f \in t /\ \A g \in t : x[1] \in Spread(sh, g)}
                       : x \in {y \in R.blocks : Robust(R, y[2])}}
Enough(sh, R, f) == \E c \in {Cardinality(New(sh, R, f))} : c >= mode.minnew \/ c + 1 >= Cardinality(R.views)
Constrained(sh, R, f) == [R EXCEPT !.cons = @ \cup New(sh, R, f)]
\* without f again; landmarks which it joined stay together
Dropped(R, f) == [R EXCEPT !.views = @ \ {f}, !.blocks = {x \in {<<y[1], y[2] \ {f}>> : y \in @} : x[2] # {}}]
\* registers f in R, if that is possible
Tried(sh, R, f) == The({
    IF W = {} \/ ~Registers(sh, R, W, f) THEN R
    ELSE The({ IF Enough(sh, S, f) THEN Constrained(sh, S, f) ELSE Dropped(S, f) : S \in {AddView(sh, R, W, f)} })
    : W \in {Considered(sh, f) \cap R.views} })

(*------------------------------ initialisation ----------------------------*)
Both(sh, f, g) == Right(sh, f) \cap Right(sh, g)
TwoView(sh, f, g) == Both(sh, f, g) \cap Many # {}
ThreeView(sh, f, a, b) == /\ TwoView(sh, f, a) /\ TwoView(sh, f, b)
                          /\ Both(sh, f, a) \cap Both(sh, f, b) \cap Spread(sh, f) \cap Spread(sh, a) \cap Spread(sh, b) # {}
Started(sh, f, a, b) == The({
    [views |-> {f, a, b}, cons |-> {{f, a, b}},
     blocks |-> Joint \cup UNION {{<<x, {g}>> : x \in {y \in sh[g].sees : ~(\E j \in Joint : j[1] = y /\ g \in j[2])}} : g \in {f, a, b}}]
    : Joint \in {{<<x, {f} \cup (IF x \in Both(sh, f, a) THEN {a} ELSE {}) \cup (IF x \in Both(sh, f, b) THEN {b} ELSE {})>> :
                  x \in Both(sh, f, a) \cup Both(sh, f, b)}} })

Least(p) == CHOOSE g \in p : \A h \in p : g <= h
Most(p) == CHOOSE g \in p : \A h \in p : g >= h

(*-------------------------------- a frame ---------------------------------*)
\* the free frames are tried, in any order
RECURSIVE Gather(_, _)
Gather(sh, S) ==   \* S: set of [R, todo]
    IF \A x \in S : x.todo = {} THEN {x.R : x \in S}
    ELSE Gather(sh, UNION {{[R |-> Tried(sh, x.R, g), todo |-> x.todo \ {g}] : g \in x.todo} : x \in S})
\* the reconstructions the frame could be registered in
Hosts(sh, rs) == {R \in rs : The({W # {} /\ Registers(sh, R, W, Len(sh)) : W \in {Considered(sh, Len(sh)) \cap R.views}})}
Seek(sh, rs, f, Loose) ==   \* the reconstructions of rs do not take f
    The({ IF Pairs = {} THEN {rs}
          ELSE UNION {{rs \cup {S} : S \in Gather(sh, {[R |-> Started(sh, f, Least(p), Most(p)), todo |-> Loose \ p]})} : p \in Pairs}
        : Pairs \in {{q \in {{a, b} : a, b \in Loose} : Cardinality(q) = 2 /\ ThreeView(sh, f, Least(q), Most(q))}} })
Settle(sh, rs, f, Loose, R) == The({
    IF f \in T.views THEN {(rs \ {R}) \cup {S} : S \in Gather(sh, {[R |-> T, todo |-> Loose]})}
    ELSE Seek(sh, (rs \ {R}) \cup {T}, f, Loose) : T \in {Tried(sh, R, f)} })
Outcomes(sh, rs) ==
    The({ IF H = {} THEN Seek(sh, rs, Len(sh), Loose) ELSE UNION {Settle(sh, rs, Len(sh), Loose, R) : R \in H}
        : H \in {Hosts(sh, rs)}, Loose \in {Considered(sh, Len(sh)) \ Viewed(rs)} })

Init == shots = <<>> /\ recs = {} /\ mode \in [window : Windows, minnew : MinNews]
Shoot(d, s, w, far) ==
    \E sh \in {Append(shots, [feed |-> d, sees |-> s, wrong |-> w, far |-> far])} :
      \* reconstructions which meet in a frame are another matter
      /\ Cardinality(Hosts(sh, recs)) <= 1
      /\ shots' = sh
      /\ \E N \in {Outcomes(sh, recs)} : recs' \in N
      /\ UNCHANGED mode
Next == /\ Len(shots) < Steps
        /\ \E d \in Pick(Feeds), s \in Pick(Sights) : \E w \in Pick(SUBSET (s \cap Small)), far \in Pick(Distances) : (far => s \cap Wide # {}) /\ Shoot(d, s, w, far)
Spec == Init /\ [][Next]_vars

(*----------------------------- checked on the spec -----------------------*)
TypeOK == \A R \in recs : Cardinality(R.views) >= 3 /\ R.views \subseteq 1..Len(shots)
Apart == \A R, S \in recs : R = S \/ R.views \cap S.views = {}
\* the landmarks of a reconstruction partition its observations
Partition == \A R \in recs :
    /\ \A f \in R.views : \A b \in shots[f].sees : Cardinality({x \in R.blocks : x[1] = b /\ f \in x[2]}) = 1
    /\ \A x \in R.blocks : x[2] # {} /\ \A f \in x[2] : f \in R.views /\ x[1] \in shots[f].sees
\* what is reported wrongly never gets into a landmark with others
Pure == \A R \in recs : \A x \in R.blocks : Cardinality(x[2]) > 1 => \A f \in x[2] : x[1] \in Right(shots, f)
\* every view is held by constraints, and all views hang together by them
Held == \A R \in recs : R.views = UNION R.cons /\ \A t \in R.cons : t \subseteq R.views /\ \E b \in Wide : \A f \in t : b \in shots[f].sees /\ ~shots[f].far
Linked == \A R \in recs : \A P \in (SUBSET R.views) \ {{}, R.views} : \E t \in R.cons : t \cap P # {} /\ t \ P # {}
\* a frame which two others would have started a reconstruction with, all of them free before, is not free
Taken == \A f \in {Len(shots)} \ {0} : f \in Viewed(recs) \/ ~(\E a, b \in Considered(shots, f) \ Viewed(recs) : a # b /\ ThreeView(shots, f, a, b))
\* nothing is lost
Grows == [][\A R \in recs : \E S \in recs' : R.views \subseteq S.views /\ R.cons \subseteq S.cons
              /\ \A x \in R.blocks : \E y \in S.blocks : x[1] = y[1] /\ x[2] \subseteq y[2]]_vars

Bit == [wide |-> Wide, narrow |-> Narrow, small |-> Small]
Emit == Len(shots) = Steps => PrintT("VEC" \o ToJson([bunches |-> Bit, mode |-> mode, shots |-> shots]))
=============================================================================
