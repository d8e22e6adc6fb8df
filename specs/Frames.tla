------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* Frames, before any geometry: what is kept of an image, which frames are *)
(* looked up for a frame, and which features of two frames match.          *)
(*                                                                         *)
(* A descriptor is a word, given by a block of 64 bits which are set, some *)
(* of which may be lost: the distance of two descriptors is the number of  *)
(* bits in which they differ.  The signature of a frame is the set of its  *)
(* words.  A camera reports features in no particular order; each has a    *)
(* response (all different), and a position in quarters of a pixel.        *)
(*                                                                         *)
(* Frames join and leave reconstructions; that decides only under which    *)
(* heading a frame is found.                                               *)
(***************************************************************************)
EXTENDS Geo
CONSTANTS Words, Noises, Spots, Lens, Levels, Feeds, MaxFrames, Margins, Queries, Budget, Pattern, Width, Height, Steps, Pick(_), EmitOne(_)
VARIABLES frames, groups, log, n
vars == <<frames, groups, log, n>>

(*------------------------------ descriptors -------------------------------*)
Sym(a, b) == (a \ b) \cup (b \ a)
Dist(x, y) == IF x.w = y.w THEN Cardinality(Sym(x.lost, y.lost)) ELSE (64 - Cardinality(x.lost)) + (64 - Cardinality(y.lost))
\* by response, the highest first; those beyond the budget are not kept
Rank(F, i) == Cardinality({j \in 1..Len(F) : F[j].resp > F[i].resp}) + 1
Sorted(F) == [k \in 1..Len(F) |-> F[CHOOSE i \in 1..Len(F) : Rank(F, i) = k]]
Kept(F) == The({IF Len(S) <= Budget THEN S ELSE SubSeq(S, 1, Budget) : S \in {Sorted(F)}})
FrameDist(f, g) == Cardinality(Sym(frames[f].words, frames[g].words))

(*------------------------------- matching ---------------------------------*)
\* j is nearer to x than any other of B, by m
Match(A, B, m) == IF Len(A) < 2 \/ Len(B) < 2 THEN {}
    ELSE {<<i, j>> \in (1..Len(A)) \X (1..Len(B)) : \E d \in {Dist(A[i], B[j])} :
            /\ \A k \in 1..Len(B) : k # j => d + m <= Dist(A[i], B[k])
            /\ \A k \in 1..Len(A) : k # i => d + m <= Dist(A[k], B[j])}
\* without a margin, equally near features may be preferred either way
MayMatch(A, B) == IF Len(A) < 2 \/ Len(B) < 2 THEN {}
    ELSE {<<i, j>> \in (1..Len(A)) \X (1..Len(B)) :
            /\ \A k \in 1..Len(B) : Dist(A[i], B[j]) <= Dist(A[i], B[k])
            /\ \A k \in 1..Len(A) : Dist(A[i], B[j]) <= Dist(A[k], B[j])}

(*--------------------------- frames to compare ----------------------------*)
All == 1..Len(frames)
Gap(f, g) == Abs(frames[f].pos - frames[g].pos)
SameFeed(f, g) == frames[f].feed = frames[g].feed
Recent(f, q) == {g \in All : g # f /\ SameFeed(f, g) /\ Gap(f, g) < q.recent}
Apart(f, q) == {g \in All : g # f /\ ~(SameFeed(f, g) /\ Gap(f, g) < q.threshold)} \ Recent(f, q)
\* the search returns the q.search nearest frames, the one itself among them; ties may be broken either way
\* e: for each frame, its distance; nearer(g, X): those of X which may come before g, and which must
NotAfter(e, g, X) == Cardinality({h \in X : h # g /\ e[h] <= e[g]})
Before(e, g, X) == Cardinality({h \in X : e[h] < e[g]})
Similar(f, q) == The({[must |-> {g \in S : NotAfter(e, g, M) < q.similar}, may |-> {g \in M : Before(e, g, S) < q.similar}] :
    <<e, S, M>> \in UNION {{<<e, {g \in A : NotAfter(e, g, All) < q.search}, {g \in A : Before(e, g, All) < q.search}>> : A \in {Apart(f, q)}} :
        e \in {[g \in All |-> FrameDist(f, g)]}}})
GroupOf(f) == IF \E g \in 1..Len(groups) : f \in groups[g] THEN CHOOSE g \in 1..Len(groups) : f \in groups[g] ELSE 0

(*-------------------------------- colours ---------------------------------*)
\* a picture: three channels, each (a x + b y + c x y + d) mod 256
Pix(p, x, y) == (p[1] * x + p[2] * y + p[3] * x * y + p[4]) % 256
\* the cubic through the middle two of four samples whose slopes are those of their neighbours, at k quarters of the way
Cubic(p0, p1, p2, p3, k) == 128 * p1 + 16 * k * (p2 - p0) + 4 * k * k * (2 * p0 - 5 * p1 + 4 * p2 - p3) + k * k * k * (3 * (p1 - p2) + p3 - p0)
Clamp(v) == IF v <= 0 THEN 0 ELSE IF v >= 255 * 128 THEN 255 ELSE v \div 128
Row(p, x, y, k) == Clamp(Cubic(Pix(p, x - 1, y), Pix(p, x, y), Pix(p, x + 1, y), Pix(p, x + 2, y), k))
Tone(p, qx, qy) == The({Clamp(Cubic(Row(p, x, y - 1, qx % 4), Row(p, x, y, qx % 4), Row(p, x, y + 1, qx % 4), Row(p, x, y + 2, qx % 4), qy % 4)) :
                        x \in {qx \div 4}, y \in {qy \div 4}})
\* "in": the four by four pixels around are there, with one to spare; "out": some are missing
Where(qx, qy) == The({IF x < 1 \/ y < 1 \/ x + 2 > Width - 1 \/ y + 2 > Height - 1 THEN "out"
                      ELSE IF x + 3 > Width - 1 \/ y + 3 > Height - 1 THEN "edge" ELSE "in" : x \in {qx \div 4}, y \in {qy \div 4}})
Colour(s) == CASE Where(s[1], s[2]) = "in" -> <<Tone(Pattern[1], s[1], s[2]), Tone(Pattern[2], s[1], s[2]), Tone(Pattern[3], s[1], s[2])>>
               [] Where(s[1], s[2]) = "out" -> <<0, 0, 0>>
               [] OTHER -> <<-1, -1, -1>>

(*-------------------------------- actions ---------------------------------*)
Init == frames = <<>> /\ groups = <<>> /\ log = <<>> /\ n = 0
Free == {f \in All : GroupOf(f) = 0}
Note(e) == log' = Append(log, e)
Shoot(feed, F) ==
    /\ Len(frames) < MaxFrames
    /\ \E K \in {Kept(F)} : frames' = Append(frames, [feed |-> feed, pos |-> Cardinality({g \in All : frames[g].feed = feed}), feats |-> K, words |-> {K[i].w : i \in 1..Len(K)}])
    /\ Note([op |-> "shoot", feed |-> feed, raw |-> F]) /\ UNCHANGED groups
Join(a, b, c) == /\ groups' = Append(groups, {a, b, c}) /\ Note([op |-> "join", who |-> <<a, b, c>>]) /\ UNCHANGED frames
Part(g) == /\ groups[g] # {} /\ groups' = [groups EXCEPT ![g] = {}] /\ Note([op |-> "part", group |-> g]) /\ UNCHANGED frames

\* a random bag of m features, of the given words; responses are all different
RECURSIVE Bag(_, _, _)
Bag(i, m, W) == IF i > m THEN {<<>>}
    ELSE UNION {{<<[w |-> w, lost |-> l, spot |-> s, resp |-> 8 * r + i]>> \o rest : w \in Pick(W), l \in Pick(Noises), s \in Pick(Spots), r \in Pick(Levels)} :
                rest \in Bag(i + 1, m, W)}
Finish == n = Steps - 1 /\ UNCHANGED <<frames, groups, log>>
Next ==
    /\ n < Steps /\ n' = n + 1
    /\ \/ Finish
       \/ /\ n < Steps - 1
          /\ \/ UNCHANGED <<frames, groups, log>>
             \/ \E feed \in Pick(Feeds), m \in Pick(Lens) : \E W \in Pick(SUBSET Words \ {{}}) : \E F \in Bag(1, m, W) : Shoot(feed, F)
             \/ \E feed \in Pick(Feeds), m \in Pick(Lens) : \E F \in Bag(1, m, Words) : Shoot(feed, F)
             \/ \E a \in Pick(Free) : \E b \in Pick(Free \ {a}) : \E c \in Pick(Free \ {a, b}) : Join(a, b, c)
             \/ \E g \in Pick({g \in 1..Len(groups) : groups[g] # {}}) : Part(g)
Spec == Init /\ [][Next]_vars

(*----------------------------- checked on the spec -----------------------*)
Pairs == {<<f, g>> \in All \X All : f < g}
M(f, g, m) == Match(frames[f].feats, frames[g].feats, m)
Ordered == \A f \in All : \A i \in 1..Len(frames[f].feats) : i = 1 \/ frames[f].feats[i - 1].resp > frames[f].feats[i].resp
OneToOne == n = Steps => \A p \in Pairs : \A m \in Margins : \E S \in {M(p[1], p[2], m)} :
    /\ \A x \in S, y \in S : (x[1] = y[1]) <=> (x[2] = y[2])
    /\ M(p[2], p[1], m) = {<<x[2], x[1]>> : x \in S}
    /\ \A k \in Margins : k > m => M(p[1], p[2], k) \subseteq S
    /\ S \subseteq MayMatch(frames[p[1]].feats, frames[p[2]].feats)
Itself == n = Steps => \A f \in All : \A m \in Margins :
    \A x \in M(f, f, m) : x[1] = x[2]
Found == n = Steps => \A f \in All : \A q \in Queries : \E s \in {Similar(f, q)} :
    /\ s.must \subseteq s.may
    /\ Cardinality(s.must) <= q.similar
    /\ f \notin Recent(f, q) \cup s.may
\* who is recent for whom is mutual
Mutual == n = Steps => \A p \in Pairs : \A q \in Queries : p[1] \in Recent(p[2], q) <=> p[2] \in Recent(p[1], q)
Joined == \A g \in 1..Len(groups), h \in 1..Len(groups) : g # h => groups[g] \cap groups[h] = {}
\* pictures: samples are taken as they are, and ramps which do not overflow are continued
Sampled == \A x \in 1..(Width - 4), y \in 1..(Height - 4) : \A c \in 1..3 : Tone(Pattern[c], 4 * x, 4 * y) = Pix(Pattern[c], x, y)
Ramp == \A qx \in 4..(4 * Width - 16), qy \in 4..(4 * Height - 16) : Tone(<<4, 0, 0, 8>>, qx, qy) = qx + 8 /\ Tone(<<0, 4, 0, 8>>, qx, qy) = qy + 8
ASSUME Sampled /\ Ramp

Shots(f) == [feats |-> [i \in 1..Len(frames[f].feats) |->
        [w |-> frames[f].feats[i].w, lost |-> frames[f].feats[i].lost, resp |-> frames[f].feats[i].resp, spot |-> frames[f].feats[i].spot, colour |-> Colour(frames[f].feats[i].spot)]],
    group |-> GroupOf(f)]
Out == [log |-> log, width |-> Width, height |-> Height, pattern |-> Pattern, budget |-> Budget,
        frames |-> [f \in All |-> Shots(f)],
        matches |-> {[a |-> p[1], b |-> p[2], m |-> m, pairs |-> M(p[1], p[2], m)] : p \in Pairs, m \in Margins},
        loose |-> {[a |-> p[1], b |-> p[2], must |-> M(p[1], p[2], 1), may |-> MayMatch(frames[p[1]].feats, frames[p[2]].feats)] : p \in Pairs},
        near |-> {[f |-> f, q |-> q, recent |-> Recent(f, q), similar |-> Similar(f, q)] : f \in All, q \in Queries}]
Emit == (n = Steps /\ Len(frames) > 0) => PrintT("VEC" \o ToJson(Out))
\* exhaustively: every pair of frames
EmitPair == Len(frames) = MaxFrames => PrintT("VEC" \o ToJson(Out))
=============================================================================
