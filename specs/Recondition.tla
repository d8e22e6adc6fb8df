---------------------------- MODULE Recondition ----------------------------
(***************************************************************************)
(* Nine numbers on their way to becoming an essential matrix: a matrix     *)
(* given by its singular value decomposition U diag(s) V', and what a user *)
(* does to it before and after having it reconditioned.                    *)
(***************************************************************************)
EXTENDS Geo

CONSTANTS Qs, \* rotations
          Ss, \* <<a, b, c>>, a >= b >= c >= 0: singular values
          Ks, \* nonzero factors
          Steps, Pick(_)
\* u, v: the singular vectors; s/d: the singular values; flip: the sign of the determinant
VARIABLES svd, hist, n
vars == <<svd, hist, n>>

Diag(s) == << <<s[1], 0, 0>>, <<0, s[2], 0>>, <<0, 0, s[3]>> >>
\* numerators over Den
Mat(m) == MatScale(m.sign, MatMul(MatMul(RotM(m.u), Diag(m.s)), Transp(RotM(m.v))))
Den(m) == QN(m.u) * QN(m.v) * m.d
\* the closest essential matrix is determined
Determined(m) == m.s[2] > m.s[3]
Simplify(m0) == The({ LET g == GCD(G3(m.s), m.d) IN [m EXCEPT !.s = <<m.s[1] \div g, m.s[2] \div g, m.s[3] \div g>>, !.d = m.d \div g] : m \in {m0} })
Closest(m) == Simplify([m EXCEPT !.s = <<m.s[1] + m.s[2], m.s[1] + m.s[2], 0>>, !.d = 2 * m.d])

Rec(op, m) == [op |-> op, m |-> Mat(m), n |-> Den(m), s |-> m.s, d |-> m.d, det |-> Determined(m)]
Do(op, m0) == \E m \in {m0} : svd' = m /\ hist' = Append(hist, Rec(op, m))
Init == /\ \E u, v \in Qs, s \in Ss : svd = [u |-> u, v |-> v, s |-> s, d |-> 1, sign |-> 1]
        /\ hist = << Rec(<<"init">>, svd) >>
        /\ n = 0
Recondition == Do(<<"recondition">>, Closest(svd))
Transpose == Do(<<"transpose">>, [svd EXCEPT !.u = svd.v, !.v = svd.u])
Negate == Do(<<"negate">>, [svd EXCEPT !.sign = -svd.sign])
Scale(k) == svd.d <= 1000 /\ Do(<<"scale", k[1], k[2]>>,
    Simplify([svd EXCEPT !.s = Scale3(k[1], svd.s), !.d = k[2] * svd.d]))
\* seen from a turned camera
TurnLeft(q) == QN(svd.u) <= 60 /\ Do(<<"left", q>>, [svd EXCEPT !.u = QCompose(q, svd.u)])
TurnRight(q) == QN(svd.v) <= 60 /\ Do(<<"right", q>>, [svd EXCEPT !.v = QCompose(q, svd.v)])
\* noise
Disturb(s) == Do(<<"disturb">>, [svd EXCEPT !.s = s, !.d = 1])

\* where it was not determined, nothing is known about what comes out, except its singular values
Unknown == hist[Len(hist)].op[1] = "recondition" /\ ~hist[Len(hist) - 1].det
Next == /\ n < Steps
        /\ ~Unknown
        /\ n' = n + 1
        /\ \/ Recondition
           \/ Transpose
           \/ Negate
           \/ \E k \in Pick(Ks) : Scale(k)
           \/ \E q \in Pick(Qs) : TurnLeft(q) \/ TurnRight(q)
           \/ \E s \in Pick(Ss) : Disturb(s)
Spec == Init /\ [][Next]_vars

(*----------------------------- checked on the spec -----------------------*)
Trace(M) == M[1][1] + M[2][2] + M[3][3]
Essential(M0) == \A M \in {M0} : \A MMt \in {MatMul(M, Transp(M))} :
    /\ Det3(M) = 0
    /\ MatScale(2, MatMul(MMt, M)) = MatScale(Trace(MMt), M)
Frob(M) == N2(M[1]) + N2(M[2]) + N2(M[3])
\* the singular values are those of the matrix
Ordered == svd.s[1] >= svd.s[2] /\ svd.s[2] >= svd.s[3] /\ svd.s[3] >= 0
Small(m) == QN(m.u) * QN(m.v) * Max2(m.s[1], 1) <= 600
FrobIsSingular == Small(svd) => Frob(Mat(svd)) = (QN(svd.u) * QN(svd.v)) * (QN(svd.u) * QN(svd.v)) * N2(svd.s)
\* what comes out is an essential matrix, and stays the same
IsEssential == \A m \in {Closest(svd)} : Small(m) => Essential(Mat(m))
Idempotent == \A m \in {Closest(svd)} : Closest(m) = m
\* no other essential matrix is closer: distance to U' diag(k, k, 0) V'', in doubled units of the same denominator
CloserThan(m, q, r, k) ==
    LET F == [m EXCEPT !.s = Scale3(2, m.s)]
        best == [m EXCEPT !.s = <<m.s[1] + m.s[2], m.s[1] + m.s[2], 0>>]
        other == [m EXCEPT !.u = q, !.v = r, !.s = <<2 * k, 2 * k, 0>>]
        N == QN(m.u) * QN(m.v)
        K == QN(q) * QN(r)
    IN \* |A/N - C/K|^2 < |A/N - B/N|^2
       Frob(MatAdd(MatScale(K, Mat(F)), MatScale(-N, Mat(other)))) < K * K * Frob(MatAdd(Mat(F), MatScale(-1, Mat(best))))
Tiny(m) == QN(m.u) * QN(m.v) * Max2(m.s[1], 1) <= 30 /\ m.d = 1
NoneCloser == (n = 0 /\ Tiny(svd)) =>
    \A q \in {<<1,0,0,0>>, <<1,1,0,0>>, <<1,0,1,1>>}, r \in {<<1,0,0,0>>, <<0,1,0,1>>, <<1,1,-1,1>>} :
        \A k \in 1..4 : ~CloserThan(svd, q, r, k)

Done == n = Steps \/ Unknown
Emit == Done => PrintT("VEC" \o ToJson([hist |-> hist]))
=============================================================================
