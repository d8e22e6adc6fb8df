---------------------------- MODULE ThreePoints -----------------------------
(***************************************************************************)
(* The perspective-three-point problem: a camera with world-to-camera pose *)
(* P observes three world points.  The points are moved, exchanged and     *)
(* described in other world frames, the camera is turned, advanced and put *)
(* elsewhere; bearings can be reversed or replaced by wrong ones.          *)
(*                                                                         *)
(* Decided exactly: whether the points are collinear, and whether the      *)
(* camera is on the danger cylinder of the points, where the pose is a     *)
(* double root.  The latter is computed modulo a prime, which can only     *)
(* report too many cameras as being there.                                 *)
(***************************************************************************)
EXTENDS Geo
CONSTANTS Qs, Cs, Pts, Triples, Turns, Shifts, Wrong, Steps, Pick(_)
VARIABLES pose, pts, bs, exact, hist, n
vars == <<pose, pts, bs, exact, hist, n>>

Idx == 1..3
Prime == 32749
Mod(x) == x % Prime
MulMod(x, y) == (Mod(x) * Mod(y)) % Prime
DotMod(u, v) == (MulMod(u[1], v[1]) + MulMod(u[2], v[2]) + MulMod(u[3], v[3])) % Prime
SubMod(x, y) == (Mod(x) + Prime - Mod(y)) % Prime

Finite == \A i \in Idx : pts[i][4] # 0
ScaleMod(k, v) == <<MulMod(k, v[1]), MulMod(k, v[2]), MulMod(k, v[3])>>
SubV(u, v) == <<SubMod(u[1], v[1]), SubMod(u[2], v[2]), SubMod(u[3], v[3])>>
CrossMod(u, v) == << SubMod(MulMod(u[2], v[3]), MulMod(u[3], v[2])),
                     SubMod(MulMod(u[3], v[1]), MulMod(u[1], v[3])),
                     SubMod(MulMod(u[1], v[2]), MulMod(u[2], v[1])) >>
\* three homogeneous points over a common denominator
Common(y) == << ScaleMod(MulMod(y[2][4], y[3][4]), XYZ(y[1])), ScaleMod(MulMod(y[1][4], y[3][4]), XYZ(y[2])),
                ScaleMod(MulMod(y[1][4], y[2][4]), XYZ(y[3])) >>
\* as the camera sees them, and in the world
Us == The({ Common(y) : y \in {<<Apply(pose, pts[1]), Apply(pose, pts[2]), Apply(pose, pts[3])>>} })
Ws == The({ Common(y) : y \in {pts} })
Normal(u) == CrossMod(SubV(u[2], u[1]), SubV(u[3], u[1]))
Collinear == Finite /\ \E w \in {Ws} : Normal(w) = Zero3

\* half the determinant of the derivatives of the squared distances between the points by their depths,
\* times the product of the depths
Step(u, i, j) == SubMod(DotMod(u[i], u[i]), DotMod(u[i], u[j]))
DangerDet == The({ (MulMod(Step(u, 1, 2), MulMod(Step(u, 2, 3), Step(u, 3, 1)))
                     + MulMod(Step(u, 2, 1), MulMod(Step(u, 1, 3), Step(u, 3, 2)))) % Prime : u \in {Us} })
\* the same said geometrically: seen along the normal, the camera is on the circle through the points
CylinderS(u, m, h, nn) ==
    LET term(i, j, k) == MulMod(SubMod(MulMod(nn, DotMod(u[i], u[i])), MulMod(h, h)), DotMod(m, CrossMod(u[j], u[k])))
    IN (term(1, 2, 3) + term(2, 3, 1) + term(3, 1, 2)) % Prime
Cylinder == The({ The({ CylinderS(u, m, DotMod(m, u[1]), DotMod(m, m))
                        : m \in {Normal(u)} }) : u \in {Us} })

\* whether the ray to a point is at right angles to the side opposite to it, as in symmetric positions
Square == \E u \in {Us} : \/ DotMod(u[1], SubV(u[2], u[3])) = 0
                          \/ DotMod(u[2], SubV(u[3], u[1])) = 0
                          \/ DotMod(u[3], SubV(u[1], u[2])) = 0

Look(P, X) == Bearing(P, X)
Fresh(P, X, e, b) == [i \in Idx |-> IF e[i] THEN Look(P, X[i]) ELSE b[i]]
Small3(v) == Abs(v[1]) <= 1000 /\ Abs(v[2]) <= 1000 /\ Abs(v[3]) <= 1000
Fits == /\ QN(pose'.q) <= 150 /\ pose'.d <= 150 /\ Small3(pose'.t)
        /\ \A i \in Idx : Small3(XYZ(pts'[i])) /\ pts'[i][4] <= 50 /\ Small3(bs'[i])
        \* no point in the optical centre, nor at the origin of the world (which the type cannot hold)
        /\ \A i \in Idx : XYZ(Apply(pose', pts'[i])) # Zero3 /\ XYZ(pts'[i]) # Zero3

Init == /\ \E q \in Qs, c \in Cs : pose = CamAt(q, c)
        /\ pts \in Triples
        /\ \A i \in Idx : XYZ(Apply(pose, pts[i])) # Zero3
        /\ exact = [i \in Idx |-> TRUE]
        /\ bs = Fresh(pose, pts, exact, <<>>)
        /\ hist = <<>> /\ n = 0
Log(op) == hist' = Append(hist, op)

\* a point is somewhere else
Move(i, X) == /\ pts' = [pts EXCEPT ![i] = X] /\ exact' = [exact EXCEPT ![i] = TRUE]
              /\ bs' = Fresh(pose, pts', exact', bs) /\ UNCHANGED pose /\ Log("move") /\ Fits
\* the order of the observations
Cycle == /\ pts' = <<pts[2], pts[3], pts[1]>> /\ exact' = <<exact[2], exact[3], exact[1]>> /\ bs' = <<bs[2], bs[3], bs[1]>>
         /\ UNCHANGED pose /\ Log("cycle")
Swap == /\ pts' = <<pts[2], pts[1], pts[3]>> /\ exact' = <<exact[2], exact[1], exact[3]>> /\ bs' = <<bs[2], bs[1], bs[3]>>
        /\ UNCHANGED pose /\ Log("swap")
\* another world frame: world = F world', so x' = F^-1 x and P' = P o F
Reframe(q, t) == \E F \in {[q |-> q, t |-> t, d |-> 1]} :
    /\ pose' = Compose(pose, F) /\ pts' = [i \in Idx |-> Apply(Inverse(F), pts[i])]
    /\ UNCHANGED <<bs, exact>> /\ Log("reframe") /\ Fits
\* another unit of distance
Unit(num, den) == /\ pose' = ScaleTr(pose, num, den)
                  /\ pts' = [i \in Idx |-> PtCanon(<<num * pts[i][1], num * pts[i][2], num * pts[i][3], den * pts[i][4]>>)]
                  /\ UNCHANGED <<bs, exact>> /\ Log("unit") /\ Fits
\* the camera turns: all bearings turn with it, the wrong ones as well
Turn(q) == /\ pose' = Compose([q |-> q, t |-> Zero3, d |-> 1], pose)
           /\ bs' = [i \in Idx |-> Prim3(MatVec(RotM(q), bs[i]))]
           /\ UNCHANGED <<pts, exact>> /\ Log("turn") /\ Fits
\* the camera is moved, in its own axes
Advance(t) == /\ pose' = Compose([q |-> QId, t |-> t, d |-> 1], pose)
              /\ bs' = Fresh(pose', pts, exact, bs)
              /\ UNCHANGED <<pts, exact>> /\ Log("advance") /\ Fits
\* wrong observations
Reverse(i) == /\ bs' = [bs EXCEPT ![i] = Neg3(bs[i])] /\ exact' = [exact EXCEPT ![i] = FALSE]
              /\ UNCHANGED <<pose, pts>> /\ Log("reverse")
Mistake(i, v) == /\ bs' = [bs EXCEPT ![i] = v] /\ exact' = [exact EXCEPT ![i] = FALSE]
                 /\ UNCHANGED <<pose, pts>> /\ Log("mistake")
Next == /\ n < Steps
        /\ n' = n + 1
        /\ \/ \E i \in Pick(Idx), X \in Pick(Pts) : Move(i, X)
           \/ Cycle \/ Swap
           \/ \E q \in Pick(Turns), t \in Pick(Shifts) : Reframe(q, t)
           \/ \E k \in Pick({<<2, 1>>, <<1, 3>>}) : Unit(k[1], k[2])
           \/ \E q \in Pick(Turns) : Turn(q)
           \/ \E t \in Pick(Shifts) : Advance(t)
           \/ \E i \in Pick(Idx) : Reverse(i)
           \/ \E i \in Pick(Idx), v \in Pick(Wrong) : Mistake(i, v)
Spec == Init /\ [][Next]_vars

\* the exact bearings are where the pose sees the points
Seen == \A i \in Idx : exact[i] => SameDir(bs[i], Look(pose, pts[i]))
\* the two ways of recognising the danger cylinder agree
Agree == (Finite /\ ~Collinear) => ((DangerDet = 0) = (Cylinder = 0))
\* the triangle is the same for the camera as in the world
Congruent == Finite => \A u \in {Us} :
    Collinear => Normal(u) = Zero3
All3 == \A i \in Idx : exact[i]
Emit == PrintT("VEC" \o ToJson(
    [pose |-> pose, pts |-> pts, bs |-> bs, exact |-> All3, far |-> ~Finite, collinear |-> Collinear,
     square |-> Finite /\ Square,
     single |-> Finite /\ ~Collinear /\ DangerDet # 0, op |-> IF hist = <<>> THEN "init" ELSE hist[Len(hist)]]))
=============================================================================
