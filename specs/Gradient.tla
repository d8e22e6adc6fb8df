------------------------------ MODULE Gradient ------------------------------
(***************************************************************************)
(* A camera at the origin, a point v/d of its frame and a bearing b which  *)
(* is to become the direction of the point.  The gradients say how to get  *)
(* there: along the perpendicular from the point to the ray, or by a turn  *)
(* about the normal of point and ray.  Steps along them are taken, by      *)
(* moving the point or the camera.                                         *)
(* Bearings and the first point have integer length, so the turn is exact. *)
(***************************************************************************)
EXTENDS Geo

CONSTANTS Vs,    \* vectors of integer length
          Starts, \* pairs of them
          Qs, Steps, Pick(_)
VARIABLES v, d, b, hist, n
vars == <<v, d, b, hist, n>>

\* N2(b) d times the perpendicular from the point to the ray
Perp(vv, bb) == Sub3(Scale3(Dot3(vv, bb), bb), Scale3(N2(bb), vv))
Norm(u) == CHOOSE k \in 0..100 : k * k = N2(u)
HasNorm(u) == \E k \in 0..100 : k * k = N2(u)

Rec(op, vv, dd, bb) == [op |-> op, v |-> vv, d |-> dd, b |-> bb, perp |-> Perp(vv, bb), n |-> N2(bb) * dd,
    \* the axis of the turn, whose length is the sine of the angle times |v| |b|
    axis |-> Cross3(vv, bb), dot |-> Dot3(vv, bb)]
Do(op, vv0, dd0, bb0) == \E x \in {<<vv0, dd0, bb0>>} : \E g \in {GCD(G3(x[1]), x[2])} :
    \E vv \in {<<x[1][1] \div g, x[1][2] \div g, x[1][3] \div g>>}, dd \in {x[2] \div g} :
    /\ vv # Zero3
    /\ v' = vv /\ d' = dd /\ b' = x[3]
    /\ hist' = Append(hist, Rec(op, vv, dd, x[3]))
Init == /\ \E x \in Starts : v = x[1] /\ b = x[2]
        /\ d = 1
        /\ hist = << Rec(<<"init">>, v, d, b) >>
        /\ n = 0
Small == /\ d <= 2000 /\ \A i \in 1..3 : Abs(v[i]) <= 20000
         /\ N2(b) <= 200
\* s = num/den of the way to the ray; `what' moves: the point, or the camera the other way
Move(what, s) == /\ d * s[2] <= 20000 \div N2(b)
    /\ Do(<<what, s[1], s[2]>>, Add3(Scale3(N2(b) * s[2], v), Scale3(s[1], Perp(v, b))), N2(b) * s[2] * d, b)
\* turn the camera all of the way: the rotation that takes the direction of v to b
TurnQ == <<Norm(v) * Norm(b) + Dot3(v, b), Cross3(v, b)[1], Cross3(v, b)[2], Cross3(v, b)[3]>>
Turn == /\ d = 1 /\ HasNorm(v) /\ Dot3(v, b) > 0
        /\ \E q \in {QCanon(TurnQ)} : QN(q) <= 2000 /\ Do(<<"turn", q>>, MatVec(RotM(q), v), QN(q), b)
\* look at it from a turned camera
Reframe(q) == Do(<<"reframe", q>>, MatVec(RotM(q), v), QN(q) * d, Prim3(MatVec(RotM(q), b)))
Retarget(c) == Do(<<"retarget">>, v, d, c)
Next == /\ n < Steps /\ Small
        /\ n' = n + 1
        /\ \/ \E what \in {"point", "camera"}, s \in {<<1, 4>>, <<1, 2>>, <<1, 1>>} : Move(what, s)
           \/ Turn
           \/ \E q \in Pick(Qs) : Reframe(q)
           \/ \E c \in Pick(Vs) : Retarget(c)
Spec == Init /\ [][Next]_vars

(*----------------------------- checked on the spec -----------------------*)
\* the perpendicular is one, leads to the line of the ray, and is zero only on it
ToRay == Small => \A p \in {Perp(v, b)} :
    /\ Dot3(p, b) = 0
    /\ Parallel(Add3(Scale3(N2(b), v), p), b)
    /\ (p = Zero3) <=> Parallel(v, b)
\* each step along it leaves the depth along the ray alone, and reduces the distance by its length
Last == hist[Len(hist)]
Prev == hist[Len(hist) - 1]
Closer == (n > 0 /\ Last.op[1] \in {"point", "camera"}) =>
    /\ Dot3(Last.v, b) * Prev.d = Dot3(Prev.v, b) * Last.d
    /\ \A s \in {<<Last.op[2], Last.op[3]>>} : \A i \in 1..3 :
        Abs(Prev.axis[i]) <= 2000000000 \div (Last.d * s[2]) =>
        \* distances are |v x b| / |b|
        Last.axis[i] * s[2] * Prev.d = (s[2] - s[1]) * Prev.axis[i] * Last.d
\* the turn about the axis leads to the ray, in front of the camera
OnTarget == (n > 0 /\ Last.op[1] = "turn") => SameDir(Prim3(v), Prim3(b))

Emit == (n = Steps \/ ~Small) => PrintT("VEC" \o ToJson([hist |-> hist]))
=============================================================================
