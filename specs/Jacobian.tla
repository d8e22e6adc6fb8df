------------------------------ MODULE Jacobian ------------------------------
(***************************************************************************)
(* First-order behaviour of the transformation of a homogeneous vector by  *)
(* a pose, derived exactly.  The pose is moved by a small element of se(3) *)
(* from the left: translation by delta, rotation of the rotated vector.    *)
(* A small rotation is the integer quaternion (m, e) with m large: its     *)
(* matrix times N = m^2 + |e|^2 sends y to                                 *)
(*      N y + 2 m (e x y) + 2 (e (e.y) - |e|^2 y),                         *)
(* so that with the rotation vector w = 2 e / m + O(1/m^3) the derivative  *)
(* is w |-> w x y.  TLC checks this identity, and that the tabulated       *)
(* Jacobians are the linear parts of the exact differences.                *)
(***************************************************************************)
EXTENDS Geo

CONSTANTS Poses, Pts, Ms, Es, Hs
VARIABLES pose, pt, phase
vars == <<pose, pt, phase>>

\* all of this is times N d, N the norm of the pose's quaternion
Rotated(P0, X0) == The({ Scale3(P.d, MatVec(RotM(P.q), XYZ(X))) : P \in {P0}, X \in {X0} })
Out(P, X) == \* homogeneous, not normalised
    The({ <<y[1], y[2], y[3], QN(P.q) * P.d * X[4]>> :
          y \in {Add3(Rotated(P, X), Scale3(QN(P.q) * X[4], P.t))} })
\* rows of the Jacobian with respect to the input
JInS(P, R, n) ==
             << <<R[1][1], R[1][2], R[1][3], n * P.t[1]>>,
                <<R[2][1], R[2][2], R[2][3], n * P.t[2]>>,
                <<R[3][1], R[3][2], R[3][3], n * P.t[3]>>,
                <<0, 0, 0, n * P.d>> >>
JIn(P) == The({ JInS(P, R, QN(P.q)) : R \in {MatScale(P.d, RotM(P.q))} })
\* rows of the Jacobian with respect to the pose, translation first
JSelfS(y, w) ==
                  << <<w, 0, 0, 0, y[3], -y[2]>>,
                     <<0, w, 0, -y[3], 0, y[1]>>,
                     <<0, 0, w, y[2], -y[1], 0>>,
                     <<0, 0, 0, 0, 0, 0>> >>
JSelf(P, X) == The({ JSelfS(y, QN(P.q) * P.d * X[4]) : y \in {Rotated(P, X)} })

Dot4(u, v) == u[1]*v[1] + u[2]*v[2] + u[3]*v[3] + u[4]*v[4]
MV4(J0, v0) == The({ <<Dot4(J[1], v), Dot4(J[2], v), Dot4(J[3], v), Dot4(J[4], v)>> : J \in {J0}, v \in {v0} })
Dot6(u, v) == u[1]*v[1] + u[2]*v[2] + u[3]*v[3] + u[4]*v[4] + u[5]*v[5] + u[6]*v[6]
MV6(J0, v0) == The({ <<Dot6(J[1], v), Dot6(J[2], v), Dot6(J[3], v), Dot6(J[4], v)>> : J \in {J0}, v \in {v0} })
Sub4(u, v) == <<u[1]-v[1], u[2]-v[2], u[3]-v[3], u[4]-v[4]>>
Scale4(k, v) == <<k*v[1], k*v[2], k*v[3], k*v[4]>>

Init == /\ pose \in {MkPose(p[1], p[2], p[3]) : p \in Poses}
        /\ pt \in Pts
        /\ phase = 0
\* nothing moves: every state is a vector
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<pose, pt>>
Spec == Init /\ [][Next]_vars

\* the output is linear in the input
InputDerivative ==
    phase = 0 => \A h \in Hs : \A X \in {<<pt[1] + h[1], pt[2] + h[2], pt[3] + h[3], pt[4] + h[4]>>} :
        Sub4(Out(pose, X), Out(pose, pt)) = MV4(JIn(pose), h)
\* and in the translation: moved by h / d
TranslationDerivative ==
    phase = 0 => \A h \in Hs : \A Q \in {[pose EXCEPT !.t = Add3(pose.t, XYZ(h))]} :
        Scale4(pose.d, Sub4(Out(Q, pt), Out(pose, pt)))
            = MV6(JSelf(pose, pt), <<h[1], h[2], h[3], 0, 0, 0>>)
\* rotating the rotated part by (m, e): first order in 1/m plus a remainder of second order
RotationDerivative ==
    phase = 0 => \A m \in Ms, e \in Es : \A y \in {Rotated(pose, pt)}, N \in {m * m + N2(e)} :
        \A moved \in {Add3(MatVec(RotM(<<m, e[1], e[2], e[3]>>), y), Scale3(N * QN(pose.q) * pt[4], pose.t))} :
        \A linear \in {MV6(JSelf(pose, pt), <<0, 0, 0, 2 * m * e[1], 2 * m * e[2], 2 * m * e[3]>>)},
           remainder \in {Scale3(2, Sub3(Scale3(Dot3(e, y), e), Scale3(N2(e), y)))} :
           Sub3(moved, Scale3(N, XYZ(Out(pose, pt)))) = Add3(XYZ(linear), remainder)

Emit == phase = 1 =>
    PrintT("VEC" \o ToJson([pose |-> pose, pt |-> pt, n |-> QN(pose.q) * pose.d,
                            out |-> Out(pose, pt), jin |-> JIn(pose), jself |-> JSelf(pose, pt)]))
=============================================================================
