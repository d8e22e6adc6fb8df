--------------------------- MODULE Triangulation ---------------------------
(***************************************************************************)
(* One world point observed by several cameras.                            *)
(*                                                                         *)
(* State: the observations (camera rotation, camera centre, and the        *)
(* direction the camera reports), and the point they were taken of.  The   *)
(* actions are what a user of a triangulator does to its input: observe    *)
(* the point from another camera, get a direction that points exactly away *)
(* from it (the point is then behind that camera), get a direction that is *)
(* slightly off, reorder the observations, drop one, or describe the same  *)
(* scene in another world frame.                                           *)
(*                                                                         *)
(* `Outcome' says what every triangulator must answer in the state:        *)
(*   "point"   the rays meet in one point, in front of every camera, at a  *)
(*             usable angle: that point must be returned;                  *)
(*   "none"    the rays' lines meet at a usable angle in one point which   *)
(*             is behind at least one camera: nothing may be returned;     *)
(*   "sound"   anything else: if a point is returned it must be finite and *)
(*             in front of every camera.                                   *)
(***************************************************************************)
EXTENDS Geo

CONSTANTS QS,       \* camera rotations (quaternions)
          CS,       \* camera centres
          PS,       \* world points <<x, y, z, w>>, w in {0, 1}
          MaxCams,
          NoiseK,   \* a noisy direction is NoiseK * exact + small integer vector; 0: no noise
          Moves,    \* set of <<q, t>>: changes of world frame, with q a cube rotation
          Steps,    \* bound on the number of actions
          Pick(_)   \* the subset of a parameter set considered in a step: all, or a random few

VARIABLES pt, obs, n
vars == <<pt, obs, n>>

\* c + direction to the point is exact in integers: rays are r = W*c - X
RayTo(c) == IF pt[4] = 0 THEN XYZ(pt) ELSE Sub3(XYZ(pt), c)
ExactDir(q, c) == Prim3(MatVec(RotM(q), RayTo(c)))

Seen(q, c) == RayTo(c) # Zero3

MkObs(q, c, s) == [q |-> q, c |-> c, b |-> Scale3(s, ExactDir(q, c)), s |-> s, noisy |-> FALSE]

Init == /\ pt \in PS
        /\ obs = <<>>
        /\ n = 0

Observe(q, c, s) ==
    /\ Len(obs) < MaxCams
    /\ Seen(q, c)
    /\ obs' = Append(obs, MkObs(q, c, s))
    /\ UNCHANGED pt

Flip(i) ==
    /\ ~obs[i].noisy
    /\ obs' = [obs EXCEPT ![i].b = Neg3(@), ![i].s = -@]
    /\ UNCHANGED pt

Perturb(i, e) ==
    /\ NoiseK > 0
    /\ ~obs[i].noisy
    /\ LET b2 == Add3(Scale3(NoiseK, obs[i].b), e) IN
         /\ ~Parallel(b2, obs[i].b)
         /\ obs' = [obs EXCEPT ![i].b = b2, ![i].noisy = TRUE]
    /\ UNCHANGED pt

Swap(i, j) ==
    /\ i < j
    /\ obs' = [obs EXCEPT ![i] = obs[j], ![j] = obs[i]]
    /\ UNCHANGED pt

Drop(i) ==
    /\ Len(obs) > 1
    /\ obs' = SubSeq(obs, 1, i - 1) \o SubSeq(obs, i + 1, Len(obs))
    /\ UNCHANGED pt

\* x |-> R x + t on the world: cameras turn the other way, directions stay.
RotI(q, v) == LET m == MatVec(RotM(q), v) IN <<m[1] \div QN(q), m[2] \div QN(q), m[3] \div QN(q)>>
MoveWorld(q, t) ==
    /\ pt' = LET y == Add3(RotI(q, XYZ(pt)), Scale3(pt[4], t)) IN <<y[1], y[2], y[3], pt[4]>>
    /\ obs' = [i \in 1..Len(obs) |->
                 [obs[i] EXCEPT !.q = QCompose(@, QConj(q)), !.c = Add3(RotI(q, @), t)]]

Bound == \A i \in 1..Len(obs) : \A k \in 1..3 : Abs(obs[i].c[k]) <= 60

Next ==
    /\ n < Steps
    /\ n' = n + 1
    /\ \/ \E q \in Pick(QS), c \in Pick(CS) : Observe(q, c, 1)
       \/ \E i \in 1..Len(obs) : Flip(i)
       \/ \E i \in 1..Len(obs) : \E e \in {<<1,0,0>>, <<0,-1,1>>} : Perturb(i, e)
       \/ \E i, j \in 1..Len(obs) : Swap(i, j)
       \/ \E i \in 1..Len(obs) : Drop(i)
       \/ \E m \in Pick(Moves) : MoveWorld(m[1], m[2])

Spec == Init /\ [][Next]_vars

(*----------------------------- what must come out ------------------------*)
Exact == \A i \in 1..Len(obs) : ~obs[i].noisy
InFront(i) == obs[i].s = 1
\* squared sine of the angle between two rays, at least num/den
Angle2(i, j, num, den) ==
    LET u == Prim3(RayTo(obs[i].c))  v == Prim3(RayTo(obs[j].c)) IN
    den * N2(Cross3(u, v)) >= num * N2(u) * N2(v)
WellPosed(num, den) ==
    /\ pt[4] # 0
    /\ Len(obs) >= 2
    /\ \E i, j \in 1..Len(obs) : i < j /\ Angle2(i, j, num, den)

Outcome ==
    IF Exact /\ WellPosed(1, 50)
    THEN IF \A i \in 1..Len(obs) : InFront(i) THEN "point" ELSE "none"
    ELSE "sound"

\* small noise on a well conditioned scene: the answer may not depend on
\* the order of the observations nor on the orientation of the world
Stable == /\ WellPosed(1, 10)
          /\ \A i \in 1..Len(obs) : InFront(i)
          /\ \A i, j \in 1..Len(obs) : i < j => Angle2(i, j, 1, 10)

(*----------------------------- checked on the spec -----------------------*)
TypeOK == /\ Len(obs) <= MaxCams
          /\ \A i \in 1..Len(obs) : obs[i].s \in {1, -1}
\* the direction an exact observation carries is, in the world, along the
\* ray from the camera centre to the point, with the sign recorded
RaysMeet ==
    \A i \in 1..Len(obs) : ~obs[i].noisy =>
        LET w == MatVec(RotM(QConj(obs[i].q)), obs[i].b) IN
        SameDir(Scale3(obs[i].s, w), RayTo(obs[i].c))
\* a noisy direction still has the point on the side of its sign
NoiseKeepsSide ==
    \A i \in 1..Len(obs) :
        LET w == MatVec(RotM(QConj(obs[i].q)), obs[i].b) IN
        Dot3(w, RayTo(obs[i].c)) * obs[i].s > 0
OutcomeFrameFree ==
    [][(\E m \in Moves : MoveWorld(m[1], m[2])) => Outcome' = Outcome]_vars

Emit == Len(obs) >= 2 =>
    PrintT("VEC" \o ToJson([pt |-> pt,
             obs |-> [i \in 1..Len(obs) |-> <<obs[i].q, obs[i].c, obs[i].b>>],
             out |-> Outcome, stable |-> Stable]))
=============================================================================
