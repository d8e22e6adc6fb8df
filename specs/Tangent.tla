------------------------------ MODULE Tangent ------------------------------
(***************************************************************************)
(* Rotations and rigid motions, and the vectors of their tangent spaces.   *)
(*                                                                         *)
(* The logarithm of an integer quaternion is irrational, but its multiples *)
(* need not be computed: the rotation vector k log(q) is represented by    *)
(* (q, k), and its exponential is the power q^k, exactly.  A member of     *)
(* se(3) is (t, k log(q)): translate by t, then rotate by q^k.             *)
(* Histories of the operations on members of se(3) are generated with the  *)
(* rigid motion that each of them denotes.                                 *)
(***************************************************************************)
EXTENDS Geo

CONSTANTS Qs, Ts, Ds, Factors, Steps, Pick(_)
VARIABLES el,    \* [q, k, t, d]
          hist, n
vars == <<el, hist, n>>

RECURSIVE QPowN(_, _)
QPowN(q, k) == IF k = 0 THEN QId ELSE QCompose(q, QPowN(q, k - 1))
QPow(q, k) == The({ IF x >= 0 THEN QPowN(q, x) ELSE QPowN(QConj(q), -x) : x \in {k} })

RedS(t, d, s) == [t |-> <<t[1] \div s, t[2] \div s, t[3] \div s>>, d |-> d \div s]
Red(t0, d0) == The({ RedS(x[1], x[2], (IF x[2] < 0 THEN -1 ELSE 1) * GCD(G3(x[1]), x[2])) : x \in {<<t0, d0>>} })
El(q, k, t, d) == The({ [q |-> q, k |-> k, t |-> r.t, d |-> r.d] : r \in {Red(t, d)} })

\* x |-> q^k (x + t)
IsoS(p, e) == MkPose(p, MatVec(RotM(p), e.t), QN(p) * e.d)
Iso(e0) == The({ IsoS(QPow(e.q, e.k), e) : e \in {e0} })

\* the inverse motion is x |-> q^-k x - t = q^-k (x - q^k t)
InvS(e, p) == El(e.q, -e.k, Neg3(MatVec(RotM(p), e.t)), QN(p) * e.d)
Inv(e0) == The({ InvS(e, QPow(e.q, e.k)) : e \in {e0} })

MaxAbs(t) == Max2(Abs(t[1]), Max2(Abs(t[2]), Abs(t[3])))
\* the numbers stay within the 32 bits that TLC has
Fits(e) == /\ Abs(e.k) <= 6
           /\ QN(QPow(e.q, e.k)) <= 400
           /\ MaxAbs(e.t) <= 3000 /\ e.d <= 400
           /\ \A N \in {QN(QPow(e.q, e.k))} :
                e.d * N <= 400000000 \div (N * N * Max2(MaxAbs(e.t), e.d))

Do(op, e0) == \E e \in {e0} :
    /\ Fits(e)
    /\ el' = e
    /\ hist' = Append(hist, [op |-> op, el |-> e, iso |-> Iso(e), rot |-> QPow(e.q, e.k)])

Init == /\ el \in {El(q, k, t, d) : q \in Qs, k \in {0, 1}, t \in Ts, d \in Ds} /\ Fits(el)
        /\ hist = << [op |-> <<"init">>, el |-> el, iso |-> Iso(el), rot |-> QPow(el.q, el.k)] >>
        /\ n = 0

Next ==
    /\ n < Steps
    /\ n' = n + 1
    /\ \/ Do(<<"inverse">>, Inv(el))
       \/ \E m \in Pick(Factors) : Do(<<"scale", m>>, El(el.q, m * el.k, Scale3(m, el.t), el.d))
       \/ \E m \in Pick(Factors) : Do(<<"scale_translation", m>>, El(el.q, el.k, Scale3(m, el.t), el.d))
       \/ \E m \in Pick(Factors) : Do(<<"scale_rotation", m>>, El(el.q, m * el.k, el.t, el.d))
       \/ \E t \in Pick(Ts), k \in Pick({-1, 0, 1, 2}) :
            Do(<<"add", t, k>>, El(el.q, el.k + k, Add3(el.t, Scale3(el.d, t)), el.d))

Spec == Init /\ [][Next]_vars

(*----------------------------- checked on the spec -----------------------*)
TypeOK == el.d > 0 /\ QN(el.q) > 0 /\ Len(hist) = n + 1
\* the inverse is the inverse
InverseIsInverse == Compose(Iso(el), Iso(Inv(el))) = PoseId
InverseTwice == Inv(Inv(el)) = el
\* powers are rotations about the axis of the base: they fix it, and they add up
AxisFixed == \A v \in {<<el.q[2], el.q[3], el.q[4]>>} :
    MatVec(RotM(QPow(el.q, el.k)), v) = Scale3(QN(QPow(el.q, el.k)), v)
PowersAdd == \A p \in {QPow(el.q, el.k)} : QCompose(p, el.q) = QPow(el.q, el.k + 1)
\* rotation matrices are orthogonal with positive determinant, and have the
\* trace 1 + 2 cos(angle) = 4 w^2 / N - 1
Proper == \A p \in {QPow(el.q, el.k)} : \A M \in {RotM(p)}, N \in {QN(p)} :
    /\ MatMul(Transp(M), M) = MatScale(N * N, Id3)
    /\ M[1][1] + M[2][2] + M[3][3] = 4 * p[1] * p[1] - N
    /\ N < 1000 => Det3(M) = N * N * N
\* a rotation is a half turn exactly if its trace is -1, and then it is symmetric
HalfTurn == \A p \in {QPow(el.q, el.k)} : \A M \in {RotM(p)} : (p[1] = 0) => (Transp(M) = M /\ M # MatScale(QN(p), Id3))

Emit == n = Steps => PrintT("VEC" \o ToJson([hist |-> hist]))
=============================================================================
