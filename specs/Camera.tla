------------------------------ MODULE Camera -------------------------------
(***************************************************************************)
(* Pinhole cameras, as users configure and use them.                       *)
(*                                                                         *)
(* A camera is configured by a history of builder calls or from the data   *)
(* sheet of a sensor; lengths in the image are kept in half pixels, so     *)
(* that the centre of every sensor is an integer.  Then it projects rays   *)
(* of space: <<X, Y, Z>> with Z > 0 to the pixel                           *)
(*     u = fx X/Z + s Y/Z + px,  v = fy Y/Z + py,                          *)
(* others nowhere.  With a radial distortion k1 the pixel at the distorted *)
(* position x, |x|^2 = r, is the image of the ray <<x, 1 + k1 r>>.         *)
(***************************************************************************)
EXTENDS Geo

CONSTANTS Focals, Points, Skews,  \* in half pixels
          Sensors,  \* <<width, height>> in pixels
          Rays,     \* <<X, Y, Z>>
          K1s,      \* <<num, den>>, den > 0
          Cells,    \* <<a, b, c>>: distorted positions <<a, b>>/c, c > 0
          Steps, Pick(_)
VARIABLES cam, k1, hist, n
vars == <<cam, k1, hist, n>>

Identity == [fx |-> 2, fy |-> 2, px |-> 0, py |-> 0, s |-> 0]

(*------------------------------ projection -------------------------------*)
\* a pixel is <<u, v, den>>, in half pixels; den = 0: there is none
NoPixel == <<0, 0, 0>>
Project(c, r) == IF r[3] <= 0 THEN NoPixel
    ELSE <<c.fx * r[1] + c.s * r[2] + c.px * r[3], c.fy * r[2] + c.py * r[3], r[3]>>
\* the ray of a pixel: solve for the ray by back substitution
Unproject(c, p) ==
    LET y == p[2] - c.py * p[3]          \* fy Y/Z * den
        x == p[1] - c.px * p[3]          \* (fx X/Z + s Y/Z) * den
    IN <<x * c.fy - c.s * y, y * c.fx, c.fx * c.fy * p[3]>>

(*------------------------------ distortion -------------------------------*)
R2(a) == a[1] * a[1] + a[2] * a[2]
\* the distortion is invertible at the cell <<a, b, c>>: |k1| r < 1
InRange(k, a) == Abs(k[1]) * R2(a) < k[2] * a[3] * a[3]
\* the ray that is imaged at the cell
UndistortedRay(k, a) == <<a[1] * k[2] * a[3], a[2] * k[2] * a[3], k[2] * a[3] * a[3] + k[1] * R2(a)>>
\* rays beyond the range of the distortion: 4 k1 |u|^2 > 1
Beyond(k, r) == 4 * k[1] * (r[1] * r[1] + r[2] * r[2]) > k[2] * r[3] * r[3]

(*------------------------------ histories --------------------------------*)
Init == /\ cam = Identity
        /\ k1 = <<0, 1>>
        /\ hist = << <<"identity">> >>
        /\ n = 0
Do(op, c) == cam' = c /\ hist' = Append(hist, op) /\ n' = n + 1

SetFocals(f, g) == Do(<<"focals", f, g>>, [cam EXCEPT !.fx = f, !.fy = g])
SetFocal(f) == Do(<<"focal", f>>, [cam EXCEPT !.fx = f, !.fy = f])
SetPrincipal(p, q) == Do(<<"principal_point", p, q>>, [cam EXCEPT !.px = p, !.py = q])
SetSkew(s) == Do(<<"skew", s>>, [cam EXCEPT !.s = s])
\* the middle of a row of w pixels, counted from the middle of the first: (w - 1) / 2 pixels
FromSensor(d, f) == Do(<<"sensor", d[1], d[2], f>>,
                       [fx |-> f, fy |-> f, px |-> d[1] - 1, py |-> d[2] - 1, s |-> 0])

Next ==
    \/ /\ n < Steps /\ k1[1] = 0
       /\ UNCHANGED k1
       /\ \/ \E f, g \in Pick(Focals) : SetFocals(f, g)
          \/ \E f \in Pick(Focals) : SetFocal(f)
          \/ \E p, q \in Pick(Points) : SetPrincipal(p, q)
          \/ \E s \in Pick(Skews) : SetSkew(s)
          \/ \E d \in Pick(Sensors), f \in Pick({x \in Focals : x > 0}) : FromSensor(d, f)
    \/ /\ n > 0 /\ k1[1] = 0
       /\ \E k \in Pick({k \in K1s : k[1] # 0}) : k1' = k
       /\ UNCHANGED <<cam, hist, n>>
Spec == Init /\ [][Next]_vars

(*----------------------------- checked on the spec -----------------------*)
\* the pixel determines the ray
PixelsHaveOneRay == k1[1] = 0 => \A r \in Rays : r[3] > 0 =>
    Unproject(cam, Project(cam, r)) = Scale3(cam.fx * cam.fy, r)
\* the middle of the sensor is seen by the middle ray, and the pixel centres of
\* opposite corners are seen at opposite positions
Centred == (hist[Len(hist)][1] = "sensor" /\ k1[1] = 0) => \A h \in {hist[Len(hist)]} :
    /\ Project(cam, <<0, 0, 1>>) = <<h[2] - 1, h[3] - 1, 1>>
    /\ Add3(Unproject(cam, <<0, 0, 1>>), Unproject(cam, <<2 * (h[2] - 1), 2 * (h[3] - 1), 1>>)) =
         <<0, 0, 2 * cam.fx * cam.fy>>
\* setters leave everything else alone
SettersLocal == [][ n' = n + 1 => \A h \in {hist'[Len(hist')]} :
    /\ h[1] \in {"focal", "focals"} => cam' = [cam EXCEPT !.fx = cam'.fx, !.fy = cam'.fy]
    /\ h[1] = "principal_point" => cam' = [cam EXCEPT !.px = cam'.px, !.py = cam'.py]
    /\ h[1] = "skew" => cam' = [cam EXCEPT !.s = cam'.s] ]_vars
\* rays that have a pixel are not beyond the range, and the quadratic for the
\* distorted position has this root: with rho = k1 r, u = x / (1 + rho),
\*   1 - 4 k1 |u|^2 = ((1 - rho) / (1 + rho))^2
\* (within the 32 bits that TLC has)
Modest(a) == k1[2] * a[3] * a[3] <= 400
QuadraticRoot == k1[1] # 0 => \A a \in Cells : (Modest(a) /\ InRange(k1, a)) =>
    \A r \in {UndistortedRay(k1, a)}, D \in {k1[2] * a[3] * a[3]}, rho \in {k1[1] * R2(a)} :
        /\ r[3] > 0
        /\ ~Beyond(k1, r)
        /\ (D + rho) * (D + rho) - 4 * rho * D = (D - rho) * (D - rho)
\* different cells have different rays: along a line through the centre the
\* undistorted position grows with the distorted one
Monotone == k1[1] # 0 => \A a, b \in Cells :
    (Modest(a) /\ Modest(b) /\ InRange(k1, b) /\ Parallel(<<a[1], a[2], 0>>, <<b[1], b[2], 0>>)
       /\ a[1] * b[1] + a[2] * b[2] > 0 /\ R2(a) * b[3] * b[3] < R2(b) * a[3] * a[3])
    => \A r \in {UndistortedRay(k1, a)}, q \in {UndistortedRay(k1, b)} :
         \* compare along the first nonzero coordinate
         LET i == IF a[1] # 0 THEN 1 ELSE 2
         IN Abs(r[i]) * q[3] < Abs(q[i]) * r[3]

RaysOf(k) == IF k[1] = 0
    THEN {[ray |-> r, pixel |-> Project(cam, r)] : r \in Rays}
    ELSE {[ray |-> UndistortedRay(k, a), pixel |-> Project(cam, a)] : a \in {x \in Cells : InRange(k, x)}}
         \cup {[ray |-> r, pixel |-> NoPixel] : r \in {x \in Rays : x[3] <= 0 \/ Beyond(k, x)}}
Emit == n > 0 => PrintT("VEC" \o ToJson([hist |-> hist, cam |-> cam, k1 |-> k1, obs |-> RaysOf(k1)]))
=============================================================================
