------------------------------ MODULE Matches -------------------------------
(***************************************************************************)
(* Matches of bearings between two cameras, the input of the eight-point   *)
(* and five-point estimators.  The pose P: x |-> R x + t takes camera A's  *)
(* frame to camera B's, E = [t] R.  Matches are added, dropped, reordered, *)
(* reversed, the cameras exchanged, and either camera turned.              *)
(*                                                                         *)
(* Whether the matches determine the pose is decided exactly: the rank of  *)
(* integer matrices is computed modulo a prime, which can only be too low. *)
(***************************************************************************)
EXTENDS Geo

CONSTANTS Qs, Ts, Pts, Turns, MinLen, MaxLen, Steps, Pick(_)
VARIABLES pose, ms, hist, n
vars == <<pose, ms, hist, n>>

(*------------------------------ rank modulo p ----------------------------*)
Prime == 32749
\* k r - m s, componentwise modulo the prime; rows of any length
RECURSIVE RowOp(_, _, _, _, _)
RowOp(k, r, m, s, i) == IF i > Len(r) THEN <<>>
    ELSE <<(((k * r[i]) % Prime) + Prime - ((m * s[i]) % Prime)) % Prime>> \o RowOp(k, r, m, s, i + 1)
RECURSIVE Reduce(_, _, _, _)
Reduce(rows, p, c, i) == IF i > Len(rows) THEN <<>>
    ELSE <<RowOp(p[c], rows[i], rows[i][c], p, 1)>> \o Reduce(rows, p, c, i + 1)
RECURSIVE FirstWith(_, _, _)
FirstWith(rows, c, i) == IF i > Len(rows) THEN 0 ELSE IF rows[i][c] # 0 THEN i ELSE FirstWith(rows, c, i + 1)
RECURSIVE Elim(_, _)
Elim(rows, c) ==
    IF rows = <<>> THEN 0 ELSE IF c > Len(rows[1]) THEN 0
    ELSE The({ IF k = 0 THEN Elim(rows, c + 1)
               ELSE 1 + The({ Elim(rest, c + 1) : rest \in
                   {Reduce(SubSeq(rows, 1, k - 1) \o SubSeq(rows, k + 1, Len(rows)), rows[k], c, 1)} })
               : k \in {FirstWith(rows, c, 1)} })
RECURSIVE ModRow(_, _)
ModRow(r, i) == IF i > Len(r) THEN <<>> ELSE <<r[i] % Prime>> \o ModRow(r, i + 1)
RECURSIVE ModRows(_, _)
ModRows(rows, i) == IF i > Len(rows) THEN <<>> ELSE <<ModRow(rows[i], 1)>> \o ModRows(rows, i + 1)
Rank(rows) == The({ Elim(m, 1) : m \in {ModRows(rows, 1)} })

(*------------------------------ two views --------------------------------*)
Ess(P) == MatMul(Hat(P.t), RotM(P.q))
\* the equation b' E a = 0 for the nine entries of E, by rows
Row(a, b) == << b[1]*a[1], b[1]*a[2], b[1]*a[3], b[2]*a[1], b[2]*a[2], b[2]*a[3], b[3]*a[1], b[3]*a[2], b[3]*a[3] >>
RECURSIVE Design(_, _)
Design(l, i) == IF i > Len(l) THEN <<>> ELSE <<Row(l[i].a, l[i].b)>> \o Design(l, i + 1)
\* b' X a for the directions X in which E can move within the essential matrices:
\* the rotation about each axis, and the translation in each direction
Basis == << <<1,0,0>>, <<0,1,0>>, <<0,0,1>> >>
ModM(M0) == The({ << ModRow(M[1], 1), ModRow(M[2], 1), ModRow(M[3], 1) >> : M \in {M0} })
DotMod(u, v) == (((u[1] * v[1]) % Prime) + ((u[2] * v[2]) % Prime) + ((u[3] * v[3]) % Prime)) % Prime
MatVecMod(M, v) == <<DotMod(M[1], v), DotMod(M[2], v), DotMod(M[3], v)>>
HatMod(v) == ModM(Hat(v))
\* X a for all six directions; E is modulo scale, so only five of them are independent of E
MovesS(R, t, l) ==
    LET ra(a) == MatVecMod(R, a)
        one(m) == The({ << DotMod(m.b, MatVecMod(HatMod(t), MatVecMod(HatMod(Basis[1]), v))),
                           DotMod(m.b, MatVecMod(HatMod(t), MatVecMod(HatMod(Basis[2]), v))),
                           DotMod(m.b, MatVecMod(HatMod(t), MatVecMod(HatMod(Basis[3]), v))),
                           DotMod(m.b, MatVecMod(HatMod(Basis[1]), v)),
                           DotMod(m.b, MatVecMod(HatMod(Basis[2]), v)),
                           DotMod(m.b, MatVecMod(HatMod(Basis[3]), v)) >> : v \in {ra(m.a)} })
        F[i \in 1..Len(l)] == IF i = 1 THEN <<one(l[1])>> ELSE F[i - 1] \o <<one(l[i])>>
    IN F[Len(l)]
ModMatch(m) == [a |-> ModRow(m.a, 1), b |-> ModRow(m.b, 1)]
Moves(P, l) == MovesS(ModM(RotM(P.q)), ModRow(P.t, 1), [i \in 1..Len(l) |-> ModMatch(l[i])])

\* The first eight determine E up to scale
Eight == Len(ms) >= 8 /\ Rank(Design(SubSeq(ms, 1, 8), 1)) = 8
\* The first five leave four dimensions, in which E is an isolated essential matrix:
\* of the six directions of motion, only the one along E itself is left
Five == Len(ms) >= 5 /\ Rank(Design(SubSeq(ms, 1, 5), 1)) = 5 /\ Rank(Moves(pose, SubSeq(ms, 1, 5))) = 5

Init == /\ \E q \in Qs, t \in Ts : pose = MkPose(q, t, 1)
        /\ ms = <<>> /\ hist = <<>> /\ n = 0
Log(op) == hist' = Append(hist, op)
Small3(v) == Abs(v[1]) <= 5000 /\ Abs(v[2]) <= 5000 /\ Abs(v[3]) <= 5000
\* the exact match of a point; fa, fb: reversed
Add(X) == \E y \in {Apply(pose, X)} :
    /\ Len(ms) < MaxLen
    /\ XYZ(y) # Zero3 /\ XYZ(X) # Zero3
    /\ \A i \in 1..Len(ms) : ms[i].x # X
    /\ ms' = Append(ms, [x |-> X, a |-> Prim3(XYZ(X)), b |-> Prim3(XYZ(y)), fa |-> FALSE, fb |-> FALSE])
    /\ Small3(Prim3(XYZ(y)))
    /\ UNCHANGED pose /\ Log(<<"add">>)
Again(i) == /\ i <= Len(ms) /\ Len(ms) < MaxLen
            /\ ms' = Append(ms, ms[i]) /\ UNCHANGED pose /\ Log(<<"again", i>>)
Drop(i) == /\ i <= Len(ms) /\ Len(ms) > MinLen
           /\ ms' = SubSeq(ms, 1, i - 1) \o SubSeq(ms, i + 1, Len(ms))
           /\ UNCHANGED pose /\ Log(<<"drop", i>>)
Cycle == /\ Len(ms) > 1
         /\ ms' = <<ms[Len(ms)]>> \o SubSeq(ms, 1, Len(ms) - 1)
         /\ UNCHANGED pose /\ Log(<<"cycle">>)
Flip(i, fa, fb) == /\ i <= Len(ms) /\ (fa \/ fb)
    /\ ms' = [ms EXCEPT ![i] = [x |-> @.x, a |-> IF fa THEN Neg3(@.a) ELSE @.a, b |-> IF fb THEN Neg3(@.b) ELSE @.b,
                                fa |-> @.fa # fa, fb |-> @.fb # fb]]
    /\ UNCHANGED pose /\ Log(<<"flip", i>>)
\* TLC's integers have 32 bits
Fits == /\ QN(pose'.q) <= 400 /\ pose'.d <= 400 /\ \A i \in 1..3 : Abs(pose'.t[i]) <= 4000
        /\ \A i \in 1..Len(ms) : Small3(XYZ(ms'[i].x)) /\ ms'[i].x[4] <= 1000 /\ Small3(ms'[i].a) /\ Small3(ms'[i].b)
\* the second camera becomes the first
Exchange == /\ \E P \in {Inverse(pose)} : pose' = P
            /\ ms' = [i \in 1..Len(ms) |-> [x |-> Apply(pose, ms[i].x), a |-> ms[i].b, b |-> ms[i].a,
                                            fa |-> ms[i].fb, fb |-> ms[i].fa]]
            /\ Log(<<"exchange">>) /\ Fits
TurnOf(q) == [q |-> q, t |-> Zero3, d |-> 1]
\* the first camera is turned: what it saw at x it sees at q x
TurnA(q) == /\ \E P \in {Compose(pose, TurnOf(QConj(q)))} : pose' = P
            /\ ms' = [i \in 1..Len(ms) |-> [ms[i] EXCEPT !.x = Apply(TurnOf(q), ms[i].x), !.a = Prim3(MatVec(RotM(q), ms[i].a))]]
            /\ Log(<<"turn-a", q>>) /\ Fits
TurnB(q) == /\ \E P \in {Compose(TurnOf(q), pose)} : pose' = P
            /\ ms' = [i \in 1..Len(ms) |-> [ms[i] EXCEPT !.b = Prim3(MatVec(RotM(q), ms[i].b))]]
            /\ Log(<<"turn-b", q>>) /\ Fits
Next == /\ n < Steps
        /\ n' = n + 1
        /\ \/ \E X \in Pick(Pts) : Add(X)
           \/ \E X \in Pick(Pts) : Add(X)
           \/ (n > MinLen /\ \/ \E i \in Pick(1..MaxLen) : Drop(i) \/ Again(i)
                             \/ Cycle
                             \/ \E i \in Pick(1..MaxLen), fa, fb \in Pick(BOOLEAN) : Flip(i, fa, fb)
                             \/ Exchange
                             \/ \E q \in Pick(Turns) : TurnA(q)
                             \/ \E q \in Pick(Turns) : TurnB(q))
Spec == Init /\ [][Next]_vars

(*----------------------------- checked on the spec -----------------------*)
\* whatever is done, all matches satisfy the epipolar constraint of the pose
Constraint == \A i \in 1..Len(ms) : \A E \in {ModM(Ess(pose))} : DotMod(ModRow(ms[i].b, 1), MatVecMod(E, ModRow(ms[i].a, 1))) = 0
\* and are what is seen of their points
Seen == \A i \in 1..Len(ms) :
    /\ ms[i].a = (IF ms[i].fa THEN Neg3(Prim3(XYZ(ms[i].x))) ELSE Prim3(XYZ(ms[i].x)))
    /\ ms[i].b = (IF ms[i].fb THEN Neg3(Bearing(pose, ms[i].x)) ELSE Bearing(pose, ms[i].x))
\* the rank never exceeds what the constraint leaves, nor what the motions of E leave
RankBound == n = Steps => /\ Rank(Design(ms, 1)) <= 8
                          /\ (Len(ms) > 0 => Rank(Moves(pose, ms)) <= 5)
\* without a baseline every translation will do
NoBaseline == (n = Steps /\ pose.t = Zero3) => (~Eight /\ ~Five)

Emit == (n = Steps /\ Len(ms) >= MinLen) => PrintT("VEC" \o ToJson(
    [pose |-> pose, ms |-> ms, eight |-> Eight, five |-> Five, hist |-> hist]))
=============================================================================
