----------------------------- MODULE So3Algebra -----------------------------
(***************************************************************************)
(* The Lie algebra so(3): triples of vectors, the operators on them, and   *)
(* the laws that make it a Lie algebra with the cross product as bracket.  *)
(***************************************************************************)
EXTENDS Geo
CONSTANTS Vs, Ws
VARIABLES u, v, phase
vars == <<u, v, phase>>
Vee(M) == <<M[3][2], M[1][3], M[2][1]>>
Hat2(a) == MatMul(Hat(a), Hat(a))
Bracket(a, b) == Vee(MatAdd(MatMul(Hat(a), Hat(b)), MatScale(-1, MatMul(Hat(b), Hat(a)))))
Init == u \in Vs /\ v \in Vs /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED <<u, v>>
Spec == Init /\ [][Next]_vars
HatIsCross == phase = 0 => MatVec(Hat(u), v) = Cross3(u, v)
VeeUndoesHat == Vee(Hat(u)) = u
HatSkew == Transp(Hat(u)) = MatScale(-1, Hat(u))
Hat2Formula == phase = 0 => Hat2(u) = MatAdd(Outer(u, u), MatScale(-N2(u), Id3))
BracketIsCross == phase = 0 => /\ Bracket(u, v) = Cross3(u, v)
                               /\ Bracket(v, u) = Neg3(Bracket(u, v))
                               /\ Bracket(u, u) = Zero3
Jacobi == phase = 0 => \A w \in Ws :
    Add3(Cross3(u, Cross3(v, w)), Add3(Cross3(v, Cross3(w, u)), Cross3(w, Cross3(u, v)))) = Zero3
Bilinear == phase = 0 => \A w \in Ws : Cross3(u, Add3(v, Scale3(3, w))) = Add3(Cross3(u, v), Scale3(3, Cross3(u, w)))
Emit == phase = 1 => PrintT("VEC" \o ToJson(
    [u |-> u, v |-> v, cross |-> Cross3(u, v), hat |-> Hat(u), hat2 |-> Hat2(u),
     \* [u, [u, v]] = hat2(u) v
     nested |-> Cross3(u, Cross3(u, v)), dot |-> Dot3(u, v), nu |-> N2(u)]))
=============================================================================
