------------------------------- MODULE Pencil -------------------------------
(***************************************************************************)
(* Two cameras, one bearing in each, and the pencil of planes through the  *)
(* line that joins their centres.                                          *)
(*                                                                         *)
(* The bearings need not meet.  To triangulate is to choose a plane of the *)
(* pencil, lay both bearings into it by orthogonal projection, and         *)
(* intersect: no point of that plane is seen at smaller angles than those  *)
(* of the two projections.                                                 *)
(*                                                                         *)
(* State: everything is written in the frame of the first camera, which is *)
(* at the origin: the centre c of the second one, its turn q, the bearings *)
(* a and b as integer vectors of the same length (so that a + b bisects    *)
(* them), and a competing point `rival'.  The actions replace one of these,*)
(* turn the whole scene, or exchange the cameras.                          *)
(*                                                                         *)
(* `L1' and `LInf' are what the two angular triangulators must answer:     *)
(* the theorems below say that no rival does better.                       *)
(***************************************************************************)
EXTENDS Geo

CONSTANTS AS,       \* bearings, all of one length
          CS,       \* centres of the second camera
          QS,       \* turns of the second camera
          RS,       \* rivals
          Cubes,    \* rotations of the cube
          Steps,
          Start,    \* record of sets of initial values a, b, c, q, r
          Pick(_)

VARIABLES a, b, c, q, rival, n
vars == <<a, b, c, q, rival, n>>

Usable(x, y, z) == ~Parallel(x, z) /\ ~Parallel(y, z)

Init == /\ a \in Start.a /\ b \in Start.b /\ c \in Start.c
        /\ Usable(a, b, c)
        /\ q \in Start.q
        /\ rival \in Start.r
        /\ n = 0

SeeA(x) == /\ Usable(x, b, c) /\ a' = x /\ UNCHANGED <<b, c, q, rival>>
SeeB(x) == /\ Usable(a, x, c) /\ b' = x /\ UNCHANGED <<a, c, q, rival>>
Shift(x) == /\ Usable(a, b, x) /\ c' = x /\ UNCHANGED <<a, b, q, rival>>
Turn(x) == /\ q' = x /\ UNCHANGED <<a, b, c, rival>>
Challenge(x) == /\ rival' = x /\ UNCHANGED <<a, b, c, q>>
\* the scene from the other camera, in axes parallel to those of the first
Exchange == /\ a' = b /\ b' = a /\ c' = Neg3(c) /\ rival' = Sub3(rival, c)
            /\ q' = QConj(q)
RotI(r, v) == LET m == MatVec(RotM(r), v) IN <<m[1] \div QN(r), m[2] \div QN(r), m[3] \div QN(r)>>
Turned(r) == /\ a' = RotI(r, a) /\ b' = RotI(r, b) /\ c' = RotI(r, c) /\ rival' = RotI(r, rival)
             /\ q' = QCompose(q, QConj(r))

Next ==
    /\ n < Steps
    /\ n' = n + 1
    /\ \/ \E x \in Pick(AS) : SeeA(x)
       \/ \E x \in Pick(AS) : SeeB(x)
       \/ \E x \in Pick(CS) : Shift(x)
       \/ \E x \in Pick(QS) : Turn(x)
       \/ \E x \in Pick(RS) : Challenge(x)
       \/ \E r \in Pick(Cubes) : Turned(r)
       \/ Exchange
Spec == Init /\ [][Next]_vars
\* rivals drift when the cameras are exchanged
Bound == \A k \in 1..3 : Abs(rival[k]) <= 12 /\ Abs(c[k]) <= 12

(*----------------------------- the pencil --------------------------------*)
\* N2(m) times v laid into the plane with normal m
Lay(v, m) == Sub3(Scale3(N2(m), v), Scale3(Dot3(v, m), m))
\* In the plane m of the pencil, with the laid rays u from the origin and v
\* from the centre z: u * k1 / k2 is the meeting point, v * k3 / k2 the same
\* from z (in units of N2(m), all three reduced)
Reduced(k1, k2, k3, g) == IF g = 0 THEN <<k1, k2, k3>> ELSE <<k1 \div g, k2 \div g, k3 \div g>>
Dets(k) == Reduced(k[1], k[2], k[3], GCD(k[1], GCD(k[2], k[3])))
MeetS(x, y, z, m, k) == [k1 |-> k[1], k2 |-> k[2], k3 |-> k[3], u |-> Lay(x, m), v |-> Lay(y, m), n |-> N2(m)]
Meet(x, y, z, m0) == The({ MeetS(x, y, z, w[1], w[2]) : w \in
    { <<m, The({ Dets(k) : k \in {<<Triple(z, y, m), Triple(x, y, m), Triple(z, x, m)>>} })>> : m \in {Prim3(m0)} } })
Front(M) == M.k1 * M.k2 > 0 /\ M.k3 * M.k2 > 0
\* strictly behind one of them
Back(M) == M.k1 * M.k2 < 0 \/ M.k3 * M.k2 < 0
\* (g k1 / N2 k2) u0, where u = g u0
Quot(k1, k2, u, g, w, e) == LET x == GCD(g \div e, k2)  y == GCD(k1, w \div e) IN
    LET num == (k1 \div y) * ((g \div e) \div x)  den == (k2 \div x) * ((w \div e) \div y) IN
    PtCanon(<<num * u[1], num * u[2], num * u[3], den>>)
Point(M) == The({ Quot(M.k1, M.k2, Prim3(M.u), g, M.n, GCD(g, M.n)) : g \in {G3(M.u)} })

\* L1: the bearing that makes the larger angle with the baseline stays.
L1Planes(x, y, z) ==
    LET u == Cross3(x, z)  v == Cross3(y, z) IN
    IF N2(u) > N2(v) THEN {u} ELSE IF N2(u) < N2(v) THEN {v} ELSE {u, v}
\* L-infinity: the plane that bisects the bearings, or the one that bisects
\* one and the reverse of the other
LInfPlanes(x, y, z) ==
    LET u == Cross3(Add3(x, y), z)  v == Cross3(Sub3(x, y), z) IN
    IF N2(u) > N2(v) THEN {u} ELSE IF N2(u) < N2(v) THEN {v} ELSE {u, v}

\* The unique answer of a method with these optimal planes: a meeting point,
\* none, or left open (a tie, parallel rays, a meeting point on the baseline)
AnswerS(Ms) ==
    IF Cardinality(Ms) # 1 THEN [out |-> "open", x |-> <<0, 0, 0, 0>>]
    ELSE LET M == The(Ms) IN
         IF M.k2 = 0 THEN [out |-> "open", x |-> <<0, 0, 0, 0>>]
         ELSE IF Front(M) THEN [out |-> "point", x |-> Point(M)]
         ELSE IF Back(M) THEN [out |-> "none", x |-> <<0, 0, 0, 0>>]
         ELSE [out |-> "open", x |-> <<0, 0, 0, 0>>]
Answer(x, y, z, Ps) == AnswerS({Meet(x, y, z, m) : m \in Ps})
L1 == Answer(a, b, c, L1Planes(a, b, c))
LInf == Answer(a, b, c, LInfPlanes(a, b, c))

(*----------------------------- theorems ----------------------------------*)
\* The plane of the pencil through the rival; the squared sines of the angles
\* between it and the bearings are (a.m)^2 and (b.m)^2 over N2(m) N2(a).
RivalPlane == Prim3(Cross3(c, rival))
Det == Triple(a, b, c)
Sq(x) == x * x

TypeOK == N2(a) = N2(b) /\ Usable(a, b, c)
\* the planes of the methods belong to the pencil, and are not degenerate
InPencil == \A m \in L1Planes(a, b, c) \cup LInfPlanes(a, b, c) : Dot3(m, c) = 0 /\ m # Zero3
\* the larger of the rival's angles is not smaller than those in the bisecting plane
LInfOptimal == RivalPlane # Zero3 =>
    \A m \in {RivalPlane} : \A w \in LInfPlanes(a, b, c) :
        Sq(Det) * N2(m) <= Max2(Sq(Dot3(a, m)), Sq(Dot3(b, m))) * N2(w)
\* sin(angle in L1 plane) <= sum of the sines of the rival's: with
\* Q, P, R their squares, Q <= P + R or (Q - P - R)^2 <= 4 P R
L1Ineq(Q, P, R) == Q <= P + R \/ Sq(Q - P - R) <= 4 * P * R
L1Optimal == RivalPlane # Zero3 =>
    \A m \in {RivalPlane} : \A w \in {The(L1Planes(a, b, c))} :
        LET P == Sq(Dot3(a, m)) * N2(w)  R == Sq(Dot3(b, m)) * N2(w)  Q == Sq(Det) * N2(m) IN
        \/ N2(m) > 40      \* integers of TLC have 32 bits
        \/ L1Ineq(Q, P, R)
\* in the bisecting plane both angles are the same
LInfEqual == \A w \in LInfPlanes(a, b, c) : Abs(Dot3(a, w)) = Abs(Dot3(b, w))
\* in the L1 plane one of them is zero
L1Corner == \A w \in L1Planes(a, b, c) : Dot3(a, w) = 0 \/ Dot3(b, w) = 0
\* the meeting point is on both rays, at the distances that were computed
OnRays == \A w \in L1Planes(a, b, c) \cup LInfPlanes(a, b, c) :
    \A M \in {Meet(a, b, c, w)} :
        /\ Scale3(M.k1, M.u) = Add3(Scale3(M.k2 * M.n, c), Scale3(M.k3, M.v))
        /\ Dot3(M.u, a) >= 0 /\ Dot3(M.v, b) >= 0
\* exchanging the cameras changes nothing in space
Shifted(X, z) == PtCanon(<<X[1] - z[1] * X[4], X[2] - z[2] * X[4], X[3] - z[3] * X[4], X[4]>>)
SameAnswer(A, B) == A.out = B.out /\ (A.out = "point" => Shifted(A.x, c) = B.x)
Symmetric ==
    /\ SameAnswer(L1, Answer(b, a, Neg3(c), L1Planes(b, a, Neg3(c))))
    /\ SameAnswer(LInf, Answer(b, a, Neg3(c), LInfPlanes(b, a, Neg3(c))))
\* exact bearings: both methods answer with the point they meet in
ExactAgree == (Det = 0 /\ ~Parallel(a, b)) =>
    /\ L1.out # "open" /\ LInf.out # "open" => L1 = LInf
    /\ L1.out = "point" => \A k \in {1} : Parallel(XYZ(L1.x), a)

Emit == PrintT("VEC" \o ToJson([a |-> a, b |-> b, c |-> c, q |-> q, rival |-> rival,
                l1 |-> L1, linf |-> LInf, exact |-> Det = 0]))
=============================================================================
