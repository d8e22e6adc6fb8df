------------------------------ MODULE Epipolar ------------------------------
(***************************************************************************)
(* Two views: the relative pose x |-> R x + t from camera A to camera B,   *)
(* its essential matrix E = [t] R, and matches of bearings (a, b), which   *)
(* are exact images of points, reversed exact images, or anything else.    *)
(* E is kept as integers: N d E, N the norm of the quaternion of R.        *)
(***************************************************************************)
EXTENDS Geo

CONSTANTS Qs, Ts, Ds, Pts, Vs, Steps, Pick(_)
VARIABLES pose, obs, n
vars == <<pose, obs, n>>

E(P) == MatMul(Hat(P.t), RotM(P.q))
\* b' E a
Form(P, a, b) == Dot3(b, MatVec(E(P), a))

\* half a turn about the baseline after R: the other rotation of the same essential matrix
TwistQ(P) == QCanon(QMul(<<0, P.t[1], P.t[2], P.t[3]>>, P.q))
Twisted(P) == [q |-> TwistQ(P), t |-> P.t, d |-> P.d]
\* the four poses
Four(P) == {<<P.q, P.t>>, <<P.q, Neg3(P.t)>>, <<TwistQ(P), P.t>>, <<TwistQ(P), Neg3(P.t)>>}

\* everything in B's frame and orientation: sine of the angle between the bearing and the
\* other bearing's epipolar plane, the smaller of the two; squared, <<num, den>>
LossSq(t, a, b) ==
    LET ca == N2(Cross3(a, t)) * N2(b)
        cb == N2(Cross3(b, t)) * N2(a)
        T == Triple(a, b, t)
    IN <<T * T, Max2(ca, cb)>>

Init == /\ \E q \in Qs, t \in Ts, d \in Ds : pose = MkPose(q, t, d)
        /\ obs = <<>>
        /\ n = 0
Rec(kind, x, y, a, b, fa, fb) ==
    [kind |-> kind, x |-> x, y |-> y, a |-> a, b |-> b, fa |-> fa, fb |-> fb,
     form |-> Form(pose, a, b),
     \* what the point looks like from B against the bearing b
     dot |-> Dot3(b, XYZ(y)), ra |-> MatVec(RotM(pose.q), a)]
\* the exact match of a point
See(X) == \E y \in {Apply(pose, X)} :
    /\ XYZ(y) # Zero3
    /\ obs' = Append(obs, Rec("exact", X, y, Prim3(XYZ(X)), Prim3(XYZ(y)), FALSE, FALSE))
\* the same with one or both bearings reversed
Reverse(fa, fb) ==
    /\ Len(obs) > 0 /\ obs[Len(obs)].kind = "exact"
    /\ LET o == obs[Len(obs)]
       IN obs' = Append(obs, Rec("reversed", o.x, o.y, IF fa THEN Neg3(o.a) ELSE o.a,
                                 IF fb THEN Neg3(o.b) ELSE o.b, fa, fb))
\* any match, and any point
AnyMatch(a, b, X) == \E y \in {Apply(pose, X)} :
    /\ XYZ(y) # Zero3
    /\ obs' = Append(obs, Rec("any", X, y, a, b, FALSE, FALSE))
Next == /\ n < Steps
        /\ n' = n + 1
        /\ UNCHANGED pose
        /\ \/ \E X \in Pick(Pts) : See(X)
           \/ \E fa, fb \in BOOLEAN : (fa \/ fb) /\ Reverse(fa, fb)
           \/ \E a, b \in Pick(Vs), X \in Pick(Pts) : AnyMatch(a, b, X)
Spec == Init /\ [][Next]_vars

(*----------------------------- checked on the spec -----------------------*)
Last == obs[Len(obs)]
\* exact matches satisfy the epipolar constraint, reversed or not
Constraint == n > 0 => (Last.kind # "any" => Last.form = 0)
\* it says that the two rays and the baseline lie in a plane
Coplanar == n > 0 => (Last.form = 0 <=> Triple(Last.b, pose.t, Last.ra) = 0)
\* E E' = |t|^2 I - t t': singular values |t|, |t|, 0 and left null vector t
Singular == n = 0 => \A M \in {E(pose)}, N \in {QN(pose.q)} :
    /\ MatMul(M, Transp(M)) = MatScale(N * N, MatAdd(MatScale(N2(pose.t), Id3), MatScale(-1, Outer(pose.t, pose.t))))
    /\ MatVec(Transp(M), pose.t) = Zero3
    /\ MatVec(M, MatVec(Transp(RotM(pose.q)), pose.t)) = Zero3
\* the inverse pose has the transposed matrix
OfInverse == n = 0 => \A I \in {Inverse(pose)} :
    MatScale(QN(pose.q) * pose.d, E(I)) = MatScale(QN(I.q) * I.d, Transp(E(pose)))
\* the four poses have the same matrix up to sign, and are four
TwistedSame == (n = 0 /\ pose.t # Zero3) =>
    /\ MatScale(QN(pose.q), E(Twisted(pose))) = MatScale(-QN(TwistQ(pose)), E(pose))
    /\ Cardinality(Four(pose)) = 4
    /\ TwistQ(Twisted(pose)) = pose.q
\* in front of both cameras for exactly one of the four: the exact image of a point has
\* lambda R a + t = mu b; for finite points off the baseline the signs of lambda and mu
\* are determined, and the other three poses get other signs
Depths(q, t, a, b) == \* signs of lambda and mu for R(q), t, up to a positive factor
    \E ra \in {Prim3(MatVec(RotM(q), a))} : \E c \in {Cross3(ra, b)} :
        \* all three are parallel; compare their first nonzero coordinates
        \E i \in {IF c[1] # 0 THEN 1 ELSE IF c[2] # 0 THEN 2 ELSE 3} :
            Sgn(Cross3(t, b)[i]) * Sgn(c[i]) < 0 /\ Sgn(Cross3(t, ra)[i]) * Sgn(c[i]) < 0
OneInFront == (n > 0 /\ Last.kind = "exact" /\ Last.x[4] > 0 /\ pose.t # Zero3) =>
    (Cross3(Last.ra, Last.b) # Zero3 =>
        {f \in Four(pose) : Depths(f[1], f[2], Last.a, Last.b)} = {<<pose.q, pose.t>>})
\* the loss is a squared sine, and symmetric
\* (where the squares fit into TLC's integers)
LossInRange == (n > 0 /\ pose.t # Zero3) =>
    \A ra \in {Prim3(Last.ra)} : (N2(ra) <= 20000 /\ N2(Last.b) <= 20000 /\ N2(ra) * N2(Last.b) <= 400000000 \div N2(pose.t)) =>
    \A l \in {LossSq(pose.t, ra, Last.b)} :
    /\ l[1] <= l[2]
    /\ l = LossSq(pose.t, Last.b, ra)
    /\ l[1] = 0 <=> Last.form = 0

Emit == n = Steps => PrintT("VEC" \o ToJson(
    [pose |-> pose, e |-> E(pose), n |-> QN(pose.q) * pose.d, inv |-> Inverse(pose),
     twist |-> IF pose.t = Zero3 THEN pose.q ELSE TwistQ(pose), obs |-> obs]))
=============================================================================
