------------------------------ MODULE Nearest ------------------------------
(***************************************************************************)
(* The world point nearest to several rays that do not meet.               *)
(*                                                                         *)
(* State: rays, each a camera centre and a direction (integer vectors of   *)
(* one common length, so that their projections need no square root).      *)
(* The squared distance of a point to a ray, summed over the rays, is a    *)
(* quadratic form; its minimum is the solution of three linear equations,  *)
(* computed here exactly by Cramer's rule: Num / Det.                      *)
(*                                                                         *)
(* The actions are what happens to an observed landmark: another camera    *)
(* observes it, an observation is dropped, reported first or last, found   *)
(* to point the other way (the point is then behind that camera), repeated *)
(* by a second camera at the same place, and the world is described in     *)
(* another frame.                                                          *)
(***************************************************************************)
EXTENDS Geo

CONSTANTS K,        \* squared length of the directions
          Coords,   \* range of the coordinates of directions
          QS, CS,   \* camera rotations and centres
          Ts,       \* places the rays are roughly aimed at
          Cone,     \* how roughly: Cone / 100 bounds the squared cosine from below
          MaxRays,
          Moves,
          Steps,
          Pick(_)

VARIABLES rays, aim, n
vars == <<rays, aim, n>>

Dirs == {d \in Vecs(Coords) : N2(d) = K}

\* aimed at the target from c, but for a small error
AimedF == [v \in {Sub3(t, c) : t \in Ts, c \in CS} |->
             IF v = Zero3 THEN {} ELSE {d \in Dirs : Dot3(d, v) > 0 /\ 100 * Dot3(d, v) * Dot3(d, v) >= Cone * K * N2(v)}]
Ray(q, c, d, s) == [q |-> q, c |-> c, d |-> Scale3(s, d)]

(*---------------------------- the nearest point --------------------------*)
\* A x = b, A = sum of (K I - d d'), b = sum of (K I - d d') c
ProjRow(d, i) == [j \in 1..3 |-> (IF i = j THEN K ELSE 0) - d[i] * d[j]]
ProjMat(d) == <<ProjRow(d, 1), ProjRow(d, 2), ProjRow(d, 3)>>
ZeroMat == <<Zero3, Zero3, Zero3>>
RECURSIVE SumA(_), SumB(_)
SumA(rs) == IF rs = <<>> THEN ZeroMat ELSE MatAdd(ProjMat(Head(rs).d), SumA(Tail(rs)))
SumB(rs) == IF rs = <<>> THEN Zero3 ELSE Add3(MatVec(ProjMat(Head(rs).d), Head(rs).c), SumB(Tail(rs)))
\* all rows and columns alike: A is symmetric, so rows serve as columns
Solve(A, b) == [num |-> <<Triple(b, A[2], A[3]), Triple(A[1], b, A[3]), Triple(A[1], A[2], b)>>,
                det |-> Triple(A[1], A[2], A[3])]
Nearest(rs) == The({ Solve(x[1], x[2]) : x \in {<<SumA(rs), SumB(rs)>>} })

\* the smallest eigenvalue of A is at least the fraction 1/40 of what it can be
Conditioned(rs, p) == LET m == K * Len(rs) IN Len(rs) >= 2 /\ 40 * p.det >= m * m * m
\* the side of camera i the nearest point is on: 1 in front, -1 behind, 0 too close to tell
Side(rs, i) ==
    The({ LET z == Dot3(rs[i].d, <<p.num[1] \div 32, p.num[2] \div 32, p.num[3] \div 32>>) IN
                IF z > 30 * 3 * 3 THEN 1 ELSE IF z < -30 * 3 * 3 THEN -1 ELSE 0
                : p \in {Nearest([j \in 1..Len(rs) |-> [rs[j] EXCEPT !.c = Sub3(@, rs[i].c)]])} })

(*-------------------------------- actions --------------------------------*)
Init == rays = <<>> /\ aim \in Ts /\ n = 0

Observe(q, c, d) ==
    /\ Len(rays) < MaxRays
    /\ rays' = Append(rays, Ray(q, c, d, 1)) /\ UNCHANGED aim
Flip(i) == rays' = [rays EXCEPT ![i].d = Neg3(@)] /\ UNCHANGED aim
Swap(i, j) == i < j /\ rays' = [rays EXCEPT ![i] = rays[j], ![j] = rays[i]] /\ UNCHANGED aim
Drop(i) == /\ Len(rays) > 2
           /\ rays' = SubSeq(rays, 1, i - 1) \o SubSeq(rays, i + 1, Len(rays))
           /\ UNCHANGED aim
Repeat(i) == Len(rays) < MaxRays /\ rays' = Append(rays, rays[i]) /\ UNCHANGED aim
\* the same camera observes along its ray from further back: the line is the same
Back(i, k) == /\ rays' = [rays EXCEPT ![i].c = Add3(@, Scale3(k, rays[i].d))]
              /\ \A j \in 1..3 : Abs(rays'[i].c[j]) <= 9
              /\ UNCHANGED aim
RotI(q, v) == LET m == MatVec(RotM(q), v) IN <<m[1] \div QN(q), m[2] \div QN(q), m[3] \div QN(q)>>
MoveWorld(q, t) ==
    /\ rays' = [i \in 1..Len(rays) |->
                  [q |-> QCompose(rays[i].q, QConj(q)), c |-> Add3(RotI(q, rays[i].c), t), d |-> RotI(q, rays[i].d)]]
    /\ \A i \in 1..Len(rays) : \A j \in 1..3 : Abs(rays'[i].c[j]) <= 9
    /\ aim' = Add3(RotI(q, aim), t)

\* what an action may do, given the description of the world has not moved
Grow == \E q \in Pick(QS), c \in Pick(CS) :
           aim \in Ts /\ c # aim /\ \E d \in Pick(AimedF[Sub3(aim, c)]) : Observe(q, c, d)
Rearrange == \E i, j \in 1..Len(rays) : Swap(i, j)
Turn == \E i \in 1..Len(rays) : Flip(i)
Slide == \E i \in 1..Len(rays), k \in {-1, 1} : Back(i, k)
Shift == \E m \in Pick(Moves) : MoveWorld(m[1], m[2])
Next ==
    /\ n < Steps
    /\ n' = n + 1
    /\ \/ Grow \/ Grow \/ Rearrange \/ Turn \/ Slide \/ Shift
       \/ \E i \in 1..Len(rays) : Drop(i) \/ Repeat(i)

Spec == Init /\ [][Next]_vars

(*----------------------------- laws of the spec --------------------------*)
\* exact equality of numbers beyond 32 bits, by the Chinese remainder theorem
Primes == {29989, 30011, 30013}
EqMod(A, p, b, d) == \A m \in Primes : \A i \in 1..3 :
    (Dot3([j \in 1..3 |-> A[i][j] % m], [j \in 1..3 |-> p[j] % m]) - (b[i] % m) * (d % m)) % m = 0
Rays == Len(rays)
TypeOK == Rays <= MaxRays /\ \A i \in 1..Rays : N2(rays[i].d) = K
\* the gradient of the sum of squared distances vanishes in the nearest point ...
Stationary == Rays >= 2 =>
    \E A \in {SumA(rays)}, b \in {SumB(rays)} : \E p \in {Solve(A, b)} : EqMod(A, p.num, b, p.det)
\* ... and the form is nowhere negative, so that it is the minimum; it is the
\* only one where no common direction is shared
Convex == \A v \in Vecs({-1, 0, 2}) : \E A \in {SumA(rays)} :
    Dot3(v, MatVec(A, v)) >= 0
Unique == Rays >= 2 =>
    \E p \in {Nearest(rays)} : p.det >= 0 /\ ((p.det = 0) <=> \A i, j \in 1..Rays : Parallel(rays[i].d, rays[j].d))
\* rays that meet are nearest to where they meet
MeetThere == (Rays >= 2 /\ \A i \in 1..Rays : Parallel(rays[i].d, Sub3(aim, rays[i].c))) =>
    \E p \in {Nearest(rays)} : p.num = Scale3(p.det, aim)

\* squared distances, for points with integer coordinates
Cost(y) == LET f[i \in 0..Rays] == IF i = 0 THEN 0 ELSE
                 f[i - 1] + LET v == Sub3(y, rays[i].c) IN K * N2(v) - Dot3(rays[i].d, v) * Dot3(rays[i].d, v)
           IN f[Rays]
\* no integer point beats the nearest point when that is an integer point itself
Optimal == Rays >= 2 =>
    \E p \in {Nearest(rays)} :
        (p.det > 0 /\ \A k \in 1..3 : p.num[k] % p.det = 0) =>
            \E x \in {<<p.num[1] \div p.det, p.num[2] \div p.det, p.num[3] \div p.det>>} :
                \A v \in Vecs({-1, 0, 1}) : Cost(Add3(x, v)) >= Cost(x)

\* only Grow, Drop and Repeat change the nearest point
Same == Rays >= 2 => Nearest(rays') = Nearest(rays)
OrderFree == [][Rearrange => Same]_vars
SignFree == [][Turn => Same]_vars
LineOnly == [][Slide => Same]_vars
FrameFree == [][\A m \in Moves : (Rays >= 2 /\ MoveWorld(m[1], m[2])) =>
     \E p \in {Nearest(rays)} :
       Nearest(rays') = [num |-> Add3(RotI(m[1], p.num), Scale3(p.det, m[2])), det |-> p.det]]_vars
\* everything said twice is said once
TwiceIsOnce == (Rays >= 2 /\ Rays <= 2) =>
     \E p \in {Nearest(rays)}, pp \in {Nearest(rays \o rays)} :
        pp.det = 8 * p.det /\ pp.num = Scale3(8, p.num)

Out(p) == IF ~Conditioned(rays, p) THEN "any"
          ELSE The({ IF \E i \in 1..Rays : s[i] = -1 THEN "none"
                     ELSE IF \A i \in 1..Rays : s[i] = 1 THEN "point" ELSE "edge"
                     : s \in {[i \in 1..Rays |-> Side(rays, i)]} })
Emit == Rays >= 2 =>
    \E p \in {Nearest(rays)} :
      \E o \in {Out(p)} :
        o \in {"point", "none"} =>
        PrintT("VEC" \o ToJson([rays |-> [i \in 1..Rays |-> <<rays[i].q, rays[i].c, rays[i].d>>],
                                num |-> p.num, det |-> p.det, out |-> o]))
=============================================================================
