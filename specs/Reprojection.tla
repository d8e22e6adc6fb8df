---------------------------- MODULE Reprojection ----------------------------
(***************************************************************************)
(* The reprojection error of a relative pose and a match, for any answer   *)
(* the triangulator may give: no point, or a point X of camera A's space   *)
(* in front of either camera, both or none.                                *)
(***************************************************************************)
EXTENDS Geo
CONSTANTS Qs, Ts, Ds, As, Bs, Xs, NoX, Pick(_)
VARIABLES pose, a, b, x, phase
vars == <<pose, a, b, x, phase>>

\* the difference of the image points of two vectors, as numerators over a denominator
Diff(u, v) == <<u[1] * v[3] - v[1] * u[3], u[2] * v[3] - v[2] * u[3], u[3] * v[3]>>
Seen == Apply(pose, x)
Defined == x # NoX /\ x[3] > 0 /\ Seen[3] > 0
\* a point exactly in the plane of a camera is left open
Open == x # NoX /\ (x[3] = 0 \/ Seen[3] = 0)

Init == /\ \E q \in Qs, t \in Ts, d \in Ds : pose = MkPose(q, t, d)
        /\ a = <<0, 0, 1>> /\ b = <<0, 0, 1>> /\ x = NoX
        /\ phase = 0
\* a match which is the exact image of a point
Exact == \E p \in Pick(Xs) : \E y \in {Apply(pose, p)} :
    /\ p[3] # 0 /\ y[3] # 0
    /\ x' = p /\ a' = XYZ(p) /\ b' = XYZ(y)
\* any match, and any answer
Arbitrary == \E u \in Pick(As), v \in Pick(Bs), p \in Pick(Xs) : x' = p /\ a' = u /\ b' = v
Fails == \E u \in Pick(As), v \in Pick(Bs) : x' = NoX /\ a' = u /\ b' = v
Next == /\ phase < 6
        /\ phase' = phase + 1
        /\ Exact \/ Arbitrary \/ Fails
        /\ UNCHANGED pose
Spec == Init /\ [][Next]_vars

Errors == << Diff(a, XYZ(x)), Diff(b, XYZ(Seen)) >>
\* exact matches have no error, and only matches along the rays to the point have none
ZeroIffExact == (phase > 0 /\ Defined) =>
    ((\A e \in {Errors[1], Errors[2]} : e[1] = 0 /\ e[2] = 0)
       <=> (Parallel(a, XYZ(x)) /\ Parallel(b, XYZ(Seen))))
Emit == (phase > 0 /\ ~Open) => PrintT("VEC" \o ToJson(
    [pose |-> pose, a |-> a, b |-> b, x |-> x, defined |-> Defined,
     errors |-> IF Defined THEN Errors ELSE <<>>,
     exact |-> Defined /\ Parallel(a, XYZ(x)) /\ Parallel(b, XYZ(Seen))]))
=============================================================================
