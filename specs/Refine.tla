------------------------------- MODULE Refine -------------------------------
(***************************************************************************)
(* Refinement of the pose of one camera by the directions in which it sees *)
(* known points (landmarks).  The camera is at `truth'; the refinement     *)
(* starts at `start'.  Landmarks are observed, observed wrongly, forgotten,*)
(* repeated and reordered; the start is displaced and put right; the world *)
(* and the camera are described in other frames and units.                 *)
(*                                                                         *)
(* Per landmark at y in front of or behind the camera with bearing b, the  *)
(* start is to be moved so that y comes closer to the ray:                 *)
(*   by the perpendicular from y to the line of b (an exact rational), or  *)
(*   by a turn about y x b, by an angle whose sine is |y x b| / (|y| |b|). *)
(***************************************************************************)
EXTENDS Geo
CONSTANTS Qs, Cs, Pts, Turns, Shifts, Disps, Wrong, MaxMarks, Steps, Pick(_)
VARIABLES truth, start, marks, hist, n, was
vars == <<truth, start, marks, hist, n, was>>

Mark(P, X) == [x |-> X, b |-> Bearing(P, X), exact |-> TRUE]
\* the move of the start that one landmark asks for
MoveS(y, b, nb) == [perp |-> Sub3(Scale3(Dot3(y, b), b), Scale3(nb, XYZ(y))), den |-> nb * y[4], turn |-> Cross3(XYZ(y), b), dot |-> Dot3(y, b),
                    ny |-> N2(XYZ(y)), nb |-> nb]
MoveOf(m) == The({ MoveS(x[1], x[2], N2(x[2])) : x \in {<<Apply(start, m.x), m.b>>} })
Usable(m) == m.x[4] # 0
Moves == [i \in 1..Len(marks) |-> IF Usable(marks[i]) THEN MoveOf(marks[i]) ELSE [den |-> 0]]
AtTruth == start = truth
AllExact == \A i \in 1..Len(marks) : marks[i].exact
Still == \A i \in 1..Len(marks) : \A m \in {Moves[i]} : m.den = 0 \/ m.turn = Zero3

Small(k, v) == Abs(v[1]) <= k /\ Abs(v[2]) <= k /\ Abs(v[3]) <= k
PoseFits(P) == QN(P.q) <= 200 /\ P.d <= 200 /\ Small(1000, P.t)
Fits == /\ PoseFits(truth') /\ PoseFits(start')
        /\ \A i \in 1..Len(marks') : /\ Small(200, XYZ(marks'[i].x)) /\ XYZ(marks'[i].x) # Zero3 /\ marks'[i].x[4] <= 8
                                     /\ Small(100, marks'[i].b)
                                     /\ XYZ(Apply(truth', marks'[i].x)) # Zero3
                                     /\ \A y \in {Apply(start', marks'[i].x)} : XYZ(y) # Zero3 /\ Small(5000, XYZ(y)) /\ y[4] <= 5000

Init == /\ \E q \in Qs, c \in Cs : truth = CamAt(q, c)
        /\ start = truth /\ marks = <<>> /\ hist = <<>> /\ n = 0 /\ was = <<>>
Log(op) == hist' = Append(hist, op) /\ was' = Moves
Observe(X) == /\ Len(marks) < MaxMarks
              /\ XYZ(Apply(truth, X)) # Zero3
              /\ marks' = Append(marks, Mark(truth, X))
              /\ UNCHANGED <<truth, start>> /\ Log("observe") /\ Fits
Misobserve(i, v) == /\ i <= Len(marks)
              /\ marks' = [marks EXCEPT ![i] = [@ EXCEPT !.b = v, !.exact = FALSE]]
              /\ UNCHANGED <<truth, start>> /\ Log("misobserve") /\ Fits
Correct == /\ marks' = [i \in 1..Len(marks) |-> Mark(truth, marks[i].x)]
           /\ UNCHANGED <<truth, start>> /\ Log("correct") /\ Fits
Forget(i) == /\ i <= Len(marks)
             /\ marks' = SubSeq(marks, 1, i - 1) \o SubSeq(marks, i + 1, Len(marks))
             /\ UNCHANGED <<truth, start>> /\ Log("forget")
Repeat(i) == /\ i <= Len(marks) /\ Len(marks) < MaxMarks
             /\ marks' = Append(marks, marks[i])
             /\ UNCHANGED <<truth, start>> /\ Log("repeat")
Cycle == /\ Len(marks) > 1
         /\ marks' = SubSeq(marks, 2, Len(marks)) \o <<marks[1]>>
         /\ UNCHANGED <<truth, start>> /\ Log("cycle")
Displace(D) == /\ start' = Compose(D, start)
               /\ UNCHANGED <<truth, marks>> /\ Log("displace") /\ Fits
PutRight == /\ start' = truth /\ UNCHANGED <<truth, marks>> /\ Log("right") /\ Fits
\* world = F world'
Reframe(F) == /\ truth' = Compose(truth, F) /\ start' = Compose(start, F)
              /\ marks' = [i \in 1..Len(marks) |-> [marks[i] EXCEPT !.x = Apply(Inverse(F), @)]]
              /\ Log("reframe") /\ Fits
Turn(q) == \E C \in {[q |-> q, t |-> Zero3, d |-> 1]} :
              /\ truth' = Compose(C, truth) /\ start' = Compose(C, start)
              /\ marks' = [i \in 1..Len(marks) |-> [marks[i] EXCEPT !.b = Prim3(MatVec(RotM(q), @))]]
              /\ Log("turn") /\ Fits
Unit(num, den) == /\ truth' = ScaleTr(truth, num, den) /\ start' = ScaleTr(start, num, den)
              /\ marks' = [i \in 1..Len(marks) |-> [marks[i] EXCEPT !.x = PtCanon(<<num * @[1], num * @[2], num * @[3], den * @[4]>>)]]
              /\ Log("unit") /\ Fits
Next == /\ n < Steps
        /\ n' = n + 1
        /\ \/ \E X \in Pick(Pts) : Observe(X)
           \/ \E X \in Pick(Pts) : Observe(X)
           \/ \E X \in Pick(Pts) : Observe(X)
           \/ \E i \in Pick(1..MaxMarks), v \in Pick(Wrong) : Misobserve(i, v)
           \/ Correct
           \/ \E i \in Pick(1..MaxMarks) : Forget(i)
           \/ \E i \in Pick(1..MaxMarks) : Repeat(i)
           \/ Cycle
           \/ \E D \in Pick(Disps) : Displace(D)
           \/ PutRight
           \/ \E q \in Pick(Turns), t \in Pick(Shifts) : Reframe([q |-> q, t |-> t, d |-> 1])
           \/ \E q \in Pick(Turns) : Turn(q)
           \/ \E k \in Pick({<<2, 1>>, <<1, 2>>}) : Unit(k[1], k[2])
Spec == Init /\ [][Next]_vars

(*----------------------------- checked on the spec -----------------------*)
\* the right pose asks for no move, and a pose that asks for none by three landmarks or more sees all of them right or reversed
KeepsTruth == (AtTruth /\ AllExact) => Still
\* equations are checked modulo a prime, as the numbers are large
Prime == 32749
DotM(u, v) == (((((u[1] % Prime) * (v[1] % Prime)) % Prime) + (((u[2] % Prime) * (v[2] % Prime)) % Prime)
               + (((u[3] % Prime) * (v[3] % Prime)) % Prime)) % Prime)
CrossM(u, v) == <<DotM(<<u[2], u[3], 0>>, <<v[3], -v[2], 0>>), DotM(<<u[3], u[1], 0>>, <<v[1], -v[3], 0>>),
                  DotM(<<u[1], u[2], 0>>, <<v[2], -v[1], 0>>)>>
MoveOk(m, k) == k.den = 0 \/ \A y \in {XYZ(Apply(start, m.x))} :
    /\ DotM(k.turn, m.b) = 0 /\ DotM(k.turn, y) = 0
    \* moving by it takes the point onto the line of the bearing
    /\ DotM(k.perp, m.b) = 0 /\ CrossM(Add3(Scale3(k.nb, y), k.perp), m.b) = Zero3
    /\ (k.perp = Zero3) <=> (k.turn = Zero3)
    /\ (k.turn = Zero3) <=> Parallel(y, m.b)
MovesOk == \A i \in 1..Len(marks) : \A k \in {Moves[i]} : MoveOk(marks[i], k)
\* the world frame does not matter, nor does the order
Last == hist[Len(hist)]
Same(k, l) == k.den = l.den /\ (k.den # 0 => k.perp = l.perp /\ k.turn = l.turn)
FrameFree == (n > 0 /\ Last = "reframe") => \A m \in {Moves} : \A i \in 1..Len(marks) :
    \/ m[i].den = 0 /\ was[i].den = 0
    \* the same fraction
    \/ \A j \in 1..3 : Sgn(m[i].perp[j]) = Sgn(was[i].perp[j]) /\ (m[i].den = was[i].den => Same(m[i], was[i]))
OrderFree == (n > 0 /\ Last = "cycle") => \A m \in {Moves} : \A i \in 1..Len(marks) : Same(m[i], was[(i % Len(marks)) + 1])

Emit == n > 0 => PrintT("VEC" \o ToJson(
    [truth |-> truth, start |-> start, marks |-> marks, moves |-> Moves, right |-> AtTruth, exact |-> AllExact, still |-> Still]))
=============================================================================
