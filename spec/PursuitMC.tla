------------------------------ MODULE PursuitMC ------------------------------
(***************************************************************************)
(* Pure pursuit along a straight lane (the x axis) or, from a body on the lane,  *)
(* along a bend (a circle that leaves the origin along x): the goal point is on   *)
(* the lane, ahead, one look-ahead distance away from the body; the steering      *)
(* angle puts the rear axle on the circle towards it.  A chord leaves a circle at  *)
(* half the angle it subtends, so the bend is given by that angle's cosine, sine    *)
(* and an upper bound of the whole angle.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Rat
CONSTANTS Size
VARIABLES i, d
Params == {[lo |-> QI(3), hi |-> QI(30), k |-> Q(4, 5), min |-> QI(2), len |-> Q(7, 2), lr |-> Q(7, 4), name |-> "default"],
           [lo |-> QI(5), hi |-> QI(13), k |-> QI(1), min |-> QI(3), len |-> QI(3), lr |-> QI(1), name |-> "other"]}
\* speeds; offsets such that look-ahead and offset make a triangle with whole sides: look-ahead 5, 10, 13, 3 ...
Speeds == {QI(-4), QI(0), Q(25, 4), Q(25, 2), Q(65, 4), QI(10), QI(13), QI(20), QI(50)}
Offsets == {QI(0)} \cup {QI(s * y) : s \in {-1, 1}, y \in {3, 4, 5, 6, 8, 12, 18, 24}} \cup {Q(9, 5), Q(-12, 5)}
\* whole-sided triangles: offset, distance along, look-ahead
Sides == {<<3, 4, 5>>, <<4, 3, 5>>, <<6, 8, 10>>, <<8, 6, 10>>, <<5, 12, 13>>, <<12, 5, 13>>, <<18, 24, 30>>, <<24, 18, 30>>}
Straight == [c |-> QI(1), s |-> QI(0), phi |-> QI(0)]
Bends == {[c |-> Q(b[1][1], b[1][3]), s |-> Q(e * b[1][2], b[1][3]), phi |-> b[2]] : e \in {-1, 1},
             b \in {<< <<4, 3, 5>>, Q(129, 100)>>, << <<3, 4, 5>>, Q(186, 100)>>, << <<12, 5, 13>>, Q(79, 100)>>, << <<5, 12, 13>>, Q(236, 100)>>}}
LookAhead(x) == QClip(QMul(x.p.k, x.v), x.p.lo, x.p.hi)
Beyond(x) == QLe(QMul(LookAhead(x), LookAhead(x)), QAdd(QMul(x.p.min, x.p.min), QMul(x.y, x.y)))  \* even the first point looked at is further away
Tri(x) == {t \in Sides : QI(t[3]) = LookAhead(x) /\ QI(t[1]) = QAbs(x.y)}
\* on a bend the whole arc must be within what is searched: (phi - 2 s) * radius <= min, radius = look-ahead / (2 s)
Bent(x) == x.b # Straight
Known(x) == IF Bent(x) THEN x.y = QI(0) /\ QLe(QMul(QMul(x.b.phi, Q(1, 2)), LookAhead(x)), QMul(QAbs(x.b.s), QAdd(LookAhead(x), x.p.min))) /\ x.along = QI(1) ELSE Beyond(x) \/ x.y = QI(0) \/ Tri(x) # {} \/ (LookAhead(x) = QI(3) /\ x.y \in {Q(9, 5), Q(-12, 5)})
Ahead(x) == IF Beyond(x) THEN x.p.min ELSE IF x.y = QI(0) THEN LookAhead(x) ELSE IF Tri(x) # {} THEN QI((CHOOSE t \in Tri(x) : TRUE)[2])
            ELSE IF x.y = Q(9, 5) THEN Q(12, 5) ELSE Q(9, 5)
Heads == {<<QI(1), QI(0)>>, <<Q(3, 5), Q(4, 5)>>, <<Q(12, 13), Q(-5, 13)>>, <<QI(0), QI(1)>>, <<QI(-1), QI(0)>>, <<Q(-4, 5), Q(-3, 5)>>}
Inputs == {x \in [p : Params, v : Speeds, y : Offsets, h : Heads, b : Bends \cup {Straight}, along : {QI(1), Q(61, 2), QI(58), Q(-5, 1), QI(70)}] : Known(x) /\ (Size > 1 \/ (x.v[1] + x.y[1] + x.along[1]) % 2 = 0)}
\* goal relative to the rear axle
Goal(x) == IF Bent(x) THEN <<QMul(LookAhead(x), x.b.c), QMul(LookAhead(x), x.b.s)>> ELSE <<Ahead(x), QNeg(x.y)>>
Rel(x) == <<QAdd(Goal(x)[1], QMul(x.p.lr, x.h[1])), QAdd(Goal(x)[2], QMul(x.p.lr, x.h[2]))>>
Cross(x) == LET g == Rel(x) IN QSub(QMul(x.h[1], g[2]), QMul(x.h[2], g[1]))
Norm2(x) == LET g == Rel(x) IN QAdd(QMul(g[1], g[1]), QMul(g[2], g[2]))
Init == i \in Inputs /\ d = <<>>
Next == d = <<>> /\ d' = <<Ahead(i), LookAhead(i), Cross(i), Norm2(i), Goal(i)>> /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, d>>
Done == d # <<>>
Reached == Done /\ ~Beyond(i) /\ ~Bent(i) => QAdd(QMul(d[1], d[1]), QMul(i.y, i.y)) = QMul(d[2], d[2])
NeverBack == Done => QLe(i.p.min, d[1])
\* aligned with the lane: steer towards it
OneLookAhead == Done /\ Bent(i) => QAdd(QMul(d[5][1], d[5][1]), QMul(d[5][2], d[5][2])) = QMul(d[2], d[2])
Towards == Done /\ ~Bent(i) /\ i.h = <<QI(1), QI(0)>> => (d[3][1] > 0) = (i.y[1] < 0) /\ (d[3][1] = 0) = (i.y[1] = 0)
Emit == Done => CSVWrite("%1$s", <<ToJson([i |-> i, d |-> d])>>, IOEnv.OUT)
=============================================================================
