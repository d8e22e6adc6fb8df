---------------------------- MODULE So3AlgebraMC ----------------------------
EXTENDS So3Algebra
VsAll == Vecs({-3, 0, 1, 2})
WsAll == Vecs({-1, 0, 2})
VsBig == Vecs({-7, -3, 0, 1, 2, 10})
=============================================================================
