-------------------------------- MODULE Geo --------------------------------
(***************************************************************************)
(* Exact projective and rigid-motion geometry over the integers.           *)
(*                                                                         *)
(* Everything the specifications of this directory say about 3d geometry   *)
(* is said with these definitions, so that TLC computes with exact values: *)
(*                                                                         *)
(*  - a rotation is an integer quaternion q # 0; the rotation matrix is    *)
(*    RotM(q) / QN(q), an exact rational matrix (unit quaternions are not  *)
(*    needed).  Components in -2..2 already give the 24 rotations of the   *)
(*    cube, half turns about skew axes, and rotations by irrational        *)
(*    multiples of a turn;                                                 *)
(*  - a rigid motion is [q, t, d]: x |-> RotM(q)/QN(q) x + t/d;            *)
(*  - a point of projective space is <<X, Y, Z, W>>, W >= 0, W = 0 at      *)
(*    infinity.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0

\* TLC passes operands by name.  Where one is used many times, it is evaluated
\* first, by letting a variable range over a singleton.
The(S) == CHOOSE x \in S : TRUE

GcdF[a \in Nat, b \in Nat] == IF b = 0 THEN a ELSE GcdF[b, a % b]
GCD(a, b) == GcdF[Abs(a), Abs(b)]

(*------------------------------ 3-vectors --------------------------------*)
Zero3 == <<0, 0, 0>>
Add3(u, v) == <<u[1] + v[1], u[2] + v[2], u[3] + v[3]>>
Sub3(u, v) == <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>
Scale3(k, v) == <<k * v[1], k * v[2], k * v[3]>>
Neg3(v) == <<-v[1], -v[2], -v[3]>>
Dot3(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
Cross3(u, v) == << u[2] * v[3] - u[3] * v[2],
                   u[3] * v[1] - u[1] * v[3],
                   u[1] * v[2] - u[2] * v[1] >>
N2(v) == Dot3(v, v)
Triple(u, v, w) == Dot3(u, Cross3(v, w))
G3(v) == GCD(v[1], GCD(v[2], v[3]))
Prim3(v0) == The({ IF g = 0 THEN v0 ELSE <<v0[1] \div g, v0[2] \div g, v0[3] \div g>> : g \in {G3(v0)} })
Parallel(u, v) == Cross3(u, v) = Zero3
\* u and v point the same way
SameDir(u, v) == Parallel(u, v) /\ Dot3(u, v) > 0

Vecs(R) == {<<x, y, z>> : x \in R, y \in R, z \in R}

(*------------------------------ 3x3 matrices (rows) ----------------------*)
MatVec(M0, v0) ==
    The({ <<Dot3(x[1][1], x[2]), Dot3(x[1][2], x[2]), Dot3(x[1][3], x[2])>> : x \in {<<M0, v0>>} })
Transp(M0) == The({ << <<M[1][1], M[2][1], M[3][1]>>,
                <<M[1][2], M[2][2], M[3][2]>>,
                <<M[1][3], M[2][3], M[3][3]>> >> : M \in {M0} })
MatMul(A0, B0) == The({
    << <<Dot3(x[1][1], x[2][1]), Dot3(x[1][1], x[2][2]), Dot3(x[1][1], x[2][3])>>,
       <<Dot3(x[1][2], x[2][1]), Dot3(x[1][2], x[2][2]), Dot3(x[1][2], x[2][3])>>,
       <<Dot3(x[1][3], x[2][1]), Dot3(x[1][3], x[2][2]), Dot3(x[1][3], x[2][3])>> >>
    : x \in {<<A0, Transp(B0)>>} })
MatScale(k, A) == << Scale3(k, A[1]), Scale3(k, A[2]), Scale3(k, A[3]) >>
MatAdd(A, B) == << Add3(A[1], B[1]), Add3(A[2], B[2]), Add3(A[3], B[3]) >>
Det3(A) == Triple(A[1], A[2], A[3])
Id3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>
\* Hat(v) w = v x w
Hat(v) == << <<0, -v[3], v[2]>>, <<v[3], 0, -v[1]>>, <<-v[2], v[1], 0>> >>
Outer(u, v) == << Scale3(u[1], v), Scale3(u[2], v), Scale3(u[3], v) >>

(*------------------------------ rotations --------------------------------*)
QN(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
QConj(q) == <<q[1], -q[2], -q[3], -q[4]>>
QMulS(p, q) == << p[1]*q[1] - p[2]*q[2] - p[3]*q[3] - p[4]*q[4],
                  p[1]*q[2] + p[2]*q[1] + p[3]*q[4] - p[4]*q[3],
                  p[1]*q[3] - p[2]*q[4] + p[3]*q[1] + p[4]*q[2],
                  p[1]*q[4] + p[2]*q[3] - p[3]*q[2] + p[4]*q[1] >>
QMul(p, q) == The({ QMulS(x[1], x[2]) : x \in {<<p, q>>} })
\* primitive representative whose first nonzero component is positive
QSign(q) == Sgn(IF q[1] # 0 THEN q[1] ELSE IF q[2] # 0 THEN q[2] ELSE IF q[3] # 0 THEN q[3] ELSE q[4])
QCanonS(q, s) == <<q[1] \div s, q[2] \div s, q[3] \div s, q[4] \div s>>
QCanon(q0) == The({ QCanonS(x[1], x[2]) : x \in
    { <<q, QSign(q) * GCD(GCD(q[1], q[2]), GCD(q[3], q[4]))>> : q \in {q0} } })
QCompose(p, q) == QCanon(QMul(p, q))
QId == <<1, 0, 0, 0>>
\* QN(q) times the rotation matrix
RotMS(a, b, c, d) ==
    << <<a*a + b*b - c*c - d*d, 2*(b*c - a*d), 2*(b*d + a*c)>>,
       <<2*(b*c + a*d), a*a - b*b + c*c - d*d, 2*(c*d - a*b)>>,
       <<2*(b*d - a*c), 2*(c*d + a*b), a*a - b*b - c*c + d*d>> >>
RotM(q0) == The({ RotMS(q[1], q[2], q[3], q[4]) : q \in {q0} })
\* canonical primitive quaternions with components in -k..k and norm <= n
Quats(k, n) == { q \in {<<a, b, c, d>> : a \in 0..k, b \in (-k)..k, c \in (-k)..k, d \in (-k)..k} :
                   QN(q) > 0 /\ QN(q) <= n /\ QCanon(q) = q }

(*------------------------------ rigid motions ----------------------------*)
PoseId == [q |-> QId, t |-> Zero3, d |-> 1]
MkPoseS(q, t, d, s) ==
    [q |-> QCanon(q), t |-> <<t[1] \div s, t[2] \div s, t[3] \div s>>, d |-> d \div s]
MkPose(q, t, d) == The({ MkPoseS(x[1], x[2], x[3], (IF x[3] < 0 THEN -1 ELSE 1) * GCD(G3(x[2]), x[3])) : x \in {<<q, t, d>>} })
\* (P o Q)(x) = P(Q(x))
ComposeS(P, Q, n) ==
    MkPose(QMul(P.q, Q.q),
           Add3(Scale3(P.d, MatVec(RotM(P.q), Q.t)), Scale3(n * Q.d, P.t)),
           n * Q.d * P.d)
Compose(P, Q) == The({ ComposeS(x[1], x[2], QN(x[1].q)) : x \in {<<P, Q>>} })
Inverse(P0) == The({ MkPose(QConj(P.q), Neg3(MatVec(RotM(QConj(P.q)), P.t)), QN(P.q) * P.d) : P \in {P0} })
ScaleTr(P0, num, den) == The({ MkPose(P.q, Scale3(num, P.t), P.d * den) : P \in {P0} })
\* the camera at centre c (integers) that sees x at R(x - c)
CamAt(q, c) == MkPose(q, Neg3(MatVec(RotM(q), c)), QN(q))

(*------------------------------ projective points ------------------------*)
XYZ(X) == <<X[1], X[2], X[3]>>
PtCanonS(X, s) == IF s = 0 THEN X ELSE <<X[1] \div s, X[2] \div s, X[3] \div s, X[4] \div s>>
PtCanon(X0) == The({ PtCanonS(X, (IF X[4] < 0 THEN -1 ELSE 1) * GCD(G3(XYZ(X)), X[4])) : X \in {X0} })
ApplyS(P, X, n, y) == PtCanon(<<y[1], y[2], y[3], n * P.d * X[4]>>)
Apply(P0, X0) == The({ ApplyS(x[1], x[2], x[3], Add3(Scale3(x[1].d, MatVec(RotM(x[1].q), XYZ(x[2]))), Scale3(x[3] * x[2][4], x[1].t)))
                        : x \in {<<P, X0, QN(P.q)>> : P \in {P0}} })
\* direction in which the camera with world-to-camera pose P sees X
Bearing(P, X) == Prim3(XYZ(Apply(P, X)))
\* camera centre (numerators over QN * d, so only proportional when comparing)
Centre(P) == LET I == Inverse(P) IN I
=============================================================================
