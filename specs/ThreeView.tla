------------------------------ MODULE ThreeView -----------------------------
(***************************************************************************)
(* Three cameras which see the same points: the centre camera C at the     *)
(* origin, whose frame everything is described in, and cameras F and S     *)
(* with positions F and S and rotations qf and qs.  Landmarks are added,   *)
(* dropped, reordered and disturbed, the two outer cameras exchanged, the  *)
(* whole scene turned, and its unit of distance changed.                   *)
(***************************************************************************)
EXTENDS Geo

CONSTANTS Rigs,  \* <<qf, F, qs, S>>
          Pts, Vs,
          Turns, \* quaternions of rotations of the cube
          MinPts, Steps, Pick(_)
VARIABLES rig, marks, hist, n
vars == <<rig, marks, hist, n>>

Integral(q, u) == The({ <<w[1] \div QN(q), w[2] \div QN(q), w[3] \div QN(q)>> : w \in {MatVec(RotM(q), u)} })
Direct(u) == Prim3(u)
Mark(r, X) == [x |-> X, c |-> Direct(X), f |-> Direct(Sub3(X, r[2])), s |-> Direct(Sub3(X, r[4])), exact |-> TRUE]
\* the point and any two cameras make a triangle
Usable(r, X) == /\ Cross3(X, r[2]) # Zero3 /\ Cross3(X, r[4]) # Zero3
                /\ Cross3(Sub3(X, r[2]), Sub3(r[4], r[2])) # Zero3
RigOk(r) == r[2] # Zero3 /\ r[4] # Zero3 /\ r[2] # r[4]

\* The epipolar planes of two bearings seen from the ends of t have normals a x t and b x t.
\* The turn from the second to the first is about their cross product, which is along t.
Normal(u, t) == Cross3(u, t)
Axis(t, a, b) == Cross3(Normal(b, t), Normal(a, t))
\* what is known of a pair: the axis over the lengths of the normals is the gradient of the rotation
PairOf(t, a, b) == [axis |-> Axis(t, a, b), na |-> N2(Normal(a, t)), nb |-> N2(Normal(b, t))]
Pairs(r, m) == [cf |-> PairOf(r[2], m.c, m.f), cs |-> PairOf(r[4], m.c, m.s),
                fs |-> PairOf(Sub3(r[4], r[2]), m.f, m.s)]
\* all planes are defined
Planes(r, m) == \A p \in {Pairs(r, m)} : p.cf.na * p.cf.nb # 0 /\ p.cs.na * p.cs.nb # 0 /\ p.fs.na * p.fs.nb # 0

Init == /\ \E r \in Rigs : RigOk(r) /\ rig = r
        /\ marks = <<>> /\ hist = <<>> /\ n = 0
Log(op) == hist' = Append(hist, op)
Add(X) == /\ Usable(rig, X) /\ X # Zero3
          /\ \A i \in 1..Len(marks) : marks[i].x # X
          /\ marks' = Append(marks, Mark(rig, X))
          /\ UNCHANGED rig /\ Log(<<"add">>)
Drop(i) == /\ i <= Len(marks) /\ Len(marks) > MinPts
           /\ marks' = SubSeq(marks, 1, i - 1) \o SubSeq(marks, i + 1, Len(marks))
           /\ UNCHANGED rig /\ Log(<<"drop", i>>)
\* the last landmark comes first
Cycle == /\ Len(marks) > 1
         /\ marks' = <<marks[Len(marks)]>> \o SubSeq(marks, 1, Len(marks) - 1)
         /\ UNCHANGED rig /\ Log(<<"cycle">>)
Disturb(i, w, u) == /\ i <= Len(marks)
    /\ LET m == marks[i]
           o == CASE w = 1 -> [m EXCEPT !.c = u, !.exact = FALSE]
                  [] w = 2 -> [m EXCEPT !.f = u, !.exact = FALSE]
                  [] w = 3 -> [m EXCEPT !.s = u, !.exact = FALSE]
       IN Planes(rig, o) /\ marks' = [marks EXCEPT ![i] = o]
    /\ UNCHANGED rig /\ Log(<<"disturb", i, w>>)
Restore(i) == /\ i <= Len(marks) /\ ~marks[i].exact
    /\ marks' = [marks EXCEPT ![i] = Mark(rig, marks[i].x)]
    /\ UNCHANGED rig /\ Log(<<"restore", i>>)
RestoreAll == /\ marks' = [i \in 1..Len(marks) |-> IF marks[i].exact THEN marks[i] ELSE Mark(rig, marks[i].x)]
              /\ UNCHANGED rig /\ Log(<<"restore-all">>)
Exchange == /\ rig' = <<rig[3], rig[4], rig[1], rig[2]>>
            /\ marks' = [i \in 1..Len(marks) |-> [marks[i] EXCEPT !.f = marks[i].s, !.s = marks[i].f]]
            /\ Log(<<"exchange">>)
\* turn the frame, the outer cameras with it
Turn(q) == /\ rig' = <<rig[1], Integral(q, rig[2]), rig[3], Integral(q, rig[4])>>
           /\ marks' = [i \in 1..Len(marks) |-> [marks[i] EXCEPT !.x = Integral(q, marks[i].x), !.c = Integral(q, marks[i].c),
                            !.f = Integral(q, marks[i].f), !.s = Integral(q, marks[i].s)]]
           /\ Log(<<"turn", q>>)
Next == /\ n < Steps
        /\ n' = n + 1
        /\ \/ \E X \in Pick(Pts) : Add(X)
           \/ \E i \in 1..8 : Drop(i)
           \/ Cycle
           \/ \E i \in 1..8, w \in 1..3, u \in Pick(Vs) : Disturb(i, w, u)
           \/ \E i \in 1..8 : Restore(i)
           \/ RestoreAll
           \/ Exchange
           \/ \E q \in Pick(Turns) : Turn(q)
Spec == Init /\ [][Next]_vars

(*----------------------------- checked on the spec -----------------------*)
Pair3(m) == {<<rig[2], m.c, m.f>>, <<rig[4], m.c, m.s>>, <<Sub3(rig[4], rig[2]), m.f, m.s>>}
\* the turn is about the baseline; none is needed for exact bearings
Gradients == \A i \in 1..Len(marks) : \A p \in Pair3(marks[i]) :
    /\ Parallel(Axis(p[1], p[2], p[3]), p[1])
    /\ marks[i].exact => Axis(p[1], p[2], p[3]) = Zero3
    /\ Axis(p[1], p[2], p[3]) = Zero3 <=> Triple(p[1], p[2], p[3]) = 0
    /\ Axis(p[1], p[3], p[2]) = Neg3(Axis(p[1], p[2], p[3]))
    \* turning the second bearing about it by a little takes it closer to the plane of the first
    /\ (Dot3(Normal(p[2], p[1]), Normal(p[3], p[1])) > 0 /\ Triple(p[1], p[2], p[3]) # 0) =>
        Sgn(Dot3(Cross3(Prim3(Axis(p[1], p[2], p[3])), p[3]), Normal(p[2], p[1]))) = -Sgn(Dot3(p[3], Normal(p[2], p[1])))
\* exact landmarks stay exact whatever is done to the scene
ExactStays == \A i \in 1..Len(marks) : marks[i].exact =>
    /\ SameDir(marks[i].c, Prim3(marks[i].x))
    /\ SameDir(marks[i].f, Prim3(Sub3(marks[i].x, rig[2])))
    /\ SameDir(marks[i].s, Prim3(Sub3(marks[i].x, rig[4])))

Emit == ((n = Steps \/ Len(marks) >= 4) /\ Len(marks) >= MinPts) => PrintT("VEC" \o ToJson(
    [f |-> CamAt(rig[1], rig[2]), s |-> CamAt(rig[3], rig[4]), pf |-> rig[2], ps |-> rig[4],
     marks |-> [i \in 1..Len(marks) |-> [m |-> marks[i], g |-> Pairs(rig, marks[i])]], hist |-> hist]))
=============================================================================
