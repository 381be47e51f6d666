-------------------------------- MODULE GoalMC -------------------------------
(***************************************************************************)
(* Goals: across a lane at some progress, an area, a pose.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Rat
CONSTANTS Size
VARIABLES i, d
Sq(q) == QMul(q, q)
\* lane with control points at 0, 4 and 10 along it, half widths 1, 2 and 3/2; goal at progress g; da and y are measured along and across the lane where
\* the goal is (the lane may bend elsewhere: nothing changes)
HalfWidth(g) == IF QLe(g, QI(0)) THEN QI(1) ELSE IF QLe(g, QI(4)) THEN QAdd(QI(1), QDiv(g, QI(4)))
                ELSE IF QLe(g, QI(10)) THEN QSub(QI(2), QDiv(QSub(g, QI(4)), QI(12))) ELSE Q(3, 2)
LaneGoals == {QI(-1), QI(0), QI(3), QI(4), QI(7), QI(10), QI(12)}
\* inside of the strip of one metre around the line across the lane, and not before it
Dist2(x) == LET w == HalfWidth(x.g)  over == QMax(QI(0), QSub(QAbs(x.y), w)) IN QAdd(Sq(x.da), Sq(over))
Lane(x) == QLt(Dist2(x), QI(1)) /\ (x.kind = "end" \/ QLe(QI(0), x.da))
Das == {Q(-3, 2), Q(-3, 4), Q(-1, 5), Q(1, 5), Q(1, 2), Q(9, 10), Q(11, 10), QI(3)}
Ys == {QI(0), Q(-9, 10), Q(6, 5), Q(-8, 5), Q(12, 5), Q(-29, 10), QI(-5)}
LaneCases == [kind : {"lane"}, g : LaneGoals, da : Das, y : Ys] \cup [kind : {"end"}, g : {QI(10)}, da : Das, y : Ys]
\* areas: a box with a square hole, an L, both with corners on the grid of odd numbers; positions on the grid of even numbers
InBox(x, lo, hi) == lo[1] < x[1] /\ x[1] < hi[1] /\ lo[2] < x[2] /\ x[2] < hi[2]
Area(x) == IF x.shape = "hole" THEN InBox(x.p, <<-5, -5>>, <<7, 5>>) /\ ~InBox(x.p, <<-1, -3>>, <<5, 1>>)
           ELSE InBox(x.p, <<-5, -5>>, <<7, -1>>) \/ InBox(x.p, <<-5, -5>>, <<-3, 9>>)
AreaCases == [kind : {"area"}, shape : {"hole", "L"}, p : {<<2 * a, 2 * b>> : a \in -4..4, b \in -4..5}]
\* poses: distance and heading difference count together: squared distance plus four times one minus the cosine of the difference
Turns == {[c |-> QI(1), s |-> QI(0)], [c |-> Q(3, 5), s |-> Q(4, 5)], [c |-> Q(40, 41), s |-> Q(-9, 41)], [c |-> QI(-1), s |-> QI(0)], [c |-> Q(-5, 13), s |-> Q(12, 13)], [c |-> Q(399, 401), s |-> Q(40, 401)]}
PoseCases == [kind : {"pose"}, tol : {Q(1, 100), Q(1, 5), QI(1), QI(3)}, dx : {QI(0), Q(1, 10), Q(-1, 2), QI(2)}, dy : {QI(0), Q(-1, 20), Q(3, 4), QI(-3)}, turn : Turns]
Away(x) == QAdd(QAdd(Sq(x.dx), Sq(x.dy)), QMul(QI(4), QSub(QI(1), x.turn.c)))
Pose(x) == QLe(Away(x), Sq(x.tol))
Tie(x) == CASE x.kind \in {"lane", "end"} -> QLt(QAbs(QSub(Dist2(x), QI(1))), Q(1, 50)) [] x.kind = "pose" -> Away(x) = Sq(x.tol) [] OTHER -> FALSE
Inputs == {x \in LaneCases \cup AreaCases \cup PoseCases : ~Tie(x)}
Out(x) == CASE x.kind \in {"lane", "end"} -> Lane(x) [] x.kind = "area" -> Area(x) [] x.kind = "pose" -> Pose(x)
Init == i \in Inputs /\ d = <<>>
Next == d = <<>> /\ d' = <<Out(i)>> /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, d>>
Done == d # <<>>
\* being at the goal counts, being far away does not
AtGoal == Done /\ i.kind = "pose" /\ Away(i) = QI(0) => d[1]
FarOff == Done /\ i.kind \in {"lane", "end"} /\ QLe(QI(1), QAbs(i.da)) => ~d[1]
Emit == Done => CSVWrite("%1$s", <<ToJson([i |-> i, d |-> d[1], w |-> IF i.kind \in {"lane", "end"} THEN HalfWidth(i.g) ELSE QI(0)])>>, IOEnv.OUT)
=============================================================================
