------------------------------- MODULE Pose -------------------------------
(***************************************************************************)
(* A pose and a projective point, and the things a user does to them.      *)
(*                                                                         *)
(* The pose is a rigid motion from one space to another; the point is a    *)
(* member of its input space.  Histories of operations are generated,      *)
(* together with the exact pose and point after each; `aux' is what an     *)
(* observer sees of the point through the pose (the transformed point).    *)
(***************************************************************************)
EXTENDS Geo

CONSTANTS Qs, Ts, Ds, \* rotations, translations, denominators of the operands
          Inits,    \* rigid motions to start from
          Pts,      \* initial points
          Ks,       \* nonzero factors for homogeneous vectors
          Scales,   \* <<num, den>>, positive
          Steps, QMax, TMax, Pick(_)

VARIABLES pose, pt, hist, n
vars == <<pose, pt, hist, n>>

Finite(X) == X[4] # 0
Proper(X) == XYZ(X) # Zero3     \* the origin has no direction
Seen == Apply(pose, pt)

MaxAbs4(X) == Max2(Max2(Abs(X[1]), Abs(X[2])), Max2(Abs(X[3]), Abs(X[4])))
MaxT(P) == Max2(P.d, Max2(Abs(P.t[1]), Max2(Abs(P.t[2]), Abs(P.t[3]))))
\* the numbers stay within the 32 bits that TLC has, whatever is done next
Small == /\ QN(pose.q) <= QMax
         /\ MaxT(pose) <= TMax
         /\ MaxAbs4(pt) <= TMax
         /\ QN(pose.q) * MaxT(pose) <= 60000 \div MaxAbs4(pt)
         /\ MaxAbs4(Seen) <= (100000000 \div QN(pose.q)) \div (QN(pose.q) * MaxT(pose))

\* what is recorded about the state after an operation
Rec(op, P, X) == [op |-> op, pose |-> P, pt |-> X, out |-> Apply(P, X)]
\* the point of the input space and the point seen must both have directions
Ok(P, X) == Proper(X) /\ Proper(Apply(P, X))

\* (quantifying over singletons makes TLC evaluate the operands once)
Do(op, P0, X0) == \E P \in {P0}, X \in {X0} :
                /\ Ok(P, X)
                /\ pose' = P
                /\ pt' = X
                /\ hist' = Append(hist, Rec(op, P, X))

Init == /\ pose \in Inits
        /\ pt \in {PtCanon(X) : X \in Pts}
        /\ Ok(pose, pt)
        /\ hist = << Rec(<<"init">>, pose, pt) >>
        /\ n = 0

\* apply another motion after / before this one; the point stays in the input space
After(M) == Do(<<"after", M>>, Compose(M, pose), pt)
Before(M) == Do(<<"before", M>>, Compose(pose, M), pt)
\* the motion the other way, applied to the point as seen
Invert == Do(<<"invert">>, Inverse(pose), Seen)
\* scale the translation
Rescale(s) == Do(<<"rescale", s[1], s[2]>>, ScaleTr(pose, s[1], s[2]), pt)
\* take it apart and put it together again
Rebuild == Do(<<"rebuild">>, pose, pt)
\* describe the input space in another frame: what is seen does not change
Reframe(M) == Do(<<"reframe", M>>, Compose(pose, Inverse(M)), Apply(M, pt))
\* the same camera seen in another reconstruction, in which its pose is M: the world to world pose
ToWorld(M) == Do(<<"toworld", M>>, Compose(Inverse(M), pose), pt)
\* move the point along
Advance == Do(<<"advance">>, pose, Seen)
\* multiply its homogeneous vector; at infinity a negative factor is the opposite direction
Rehomog(k) == /\ (pt[4] = 0 => k > 0)
              /\ Do(<<"rehomog", k>>, pose, pt)
\* through Euclidean space
Euclid == /\ Finite(pt)
          /\ Do(<<"euclid">>, pose, pt)
\* replace the point
Observe(X) == Do(<<"observe", X>>, pose, PtCanon(X))

Next ==
    /\ n < Steps
    /\ Small
    /\ n' = n + 1
    /\ \/ \E q \in Pick(Qs), t \in Pick(Ts), d \in Pick(Ds) : \E M \in {MkPose(q, t, d)} :
             After(M) \/ Before(M) \/ Reframe(M) \/ ToWorld(M)
       \/ Invert
       \/ \E s \in Pick(Scales) : Rescale(s)
       \/ Rebuild
       \/ Advance
       \/ \E k \in Pick(Ks) : Rehomog(k)
       \/ Euclid
       \/ \E X \in Pick(Pts) : Observe(X)

Spec == Init /\ [][Next]_vars

(*----------------------------- checked on the spec -----------------------*)
TypeOK == /\ pose.d > 0
          /\ QN(pose.q) > 0
          /\ pt[4] >= 0
          /\ Proper(pt)
          /\ Len(hist) = n + 1
\* the inverse undoes the pose
RoundTrip == Small => Apply(Inverse(pose), Seen) = pt
InverseTwice == Small => Inverse(Inverse(pose)) = pose
\* points at infinity stay there, finite ones stay finite
InfinityKept == (pt[4] = 0) <=> (Seen[4] = 0)
\* operations compose
Homomorphism ==
    (Small /\ n < Steps) => \A q \in Pick(Qs), t \in Pick(Ts), d \in Pick(Ds) : \A M \in {MkPose(q, t, d)} :
        Apply(Compose(M, pose), pt) = Apply(M, Seen)
\* a change of frame changes nothing that is seen
FrameFree == [][ (Len(hist') > Len(hist) /\ hist'[Len(hist')].op[1] = "reframe")
                   => hist'[Len(hist')].out = hist[Len(hist)].out ]_vars
\* the world to world pose takes the point to the point that the camera of
\* the other reconstruction sees in the same place
WorldToWorld ==
    (Small /\ n < Steps) => \A q \in Pick(Qs), t \in Pick(Ts), d \in Pick(Ds) : \A M \in {MkPose(q, t, d)} :
        Proper(Apply(Compose(Inverse(M), pose), pt)) =>
            Apply(M, Apply(Compose(Inverse(M), pose), pt)) = Seen

Emit == (n = Steps \/ ~Small) =>
    PrintT("VEC" \o ToJson([hist |-> hist]))
=============================================================================
