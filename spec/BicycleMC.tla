------------------------------ MODULE BicycleMC ------------------------------
(***************************************************************************)
(* The bicycle a planner predicts cars with: one step of its discrete successor *)
(* (commands clipped first, then one explicit step, then speed and steering     *)
(* clipped) and closed-form cases of its continuous successor.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Rat
CONSTANTS Size
VARIABLES i, d
Ang == <<<<QI(1), QI(0)>>, <<QI(0), QI(1)>>, <<Q(-3, 5), Q(4, 5)>>, <<Q(5, 13), Q(-12, 13)>>, <<QI(-1), QI(0)>>>>
Lf == QI(1)
Lr == QI(2)
L == QAdd(Lf, Lr)
VLo == QI(-2)
VHi == QI(10)
ALo == QI(-8)
AHi == QI(5)
DdMax == Q(1, 2)
\* the greatest steering angle is the one of the state (or atan(1/2)) and Room more
Room == Q(1, 16)
Steps == [kind : {"step"}, a : 1..5, v : {QI(-3), QI(12), QI(-2), Q(-3, 2), QI(0), QI(3), Q(39, 4), QI(10)}, tau : {Q(-1, 2), QI(0), Q(1, 2)},
          acc : {QI(-12), QI(-8), QI(-1), QI(0), QI(2), QI(5), QI(7)}, dd : {QI(-2), Q(-1, 8), QI(0), Q(1, 4), QI(1)},
          dt : IF Size > 1 THEN {Q(1, 16), Q(1, 8), Q(1, 4)} ELSE {Q(1, 8), Q(1, 4)}]
Straight == [kind : {"straight"}, a : 1..5, v : {QI(-2), QI(0), QI(3), QI(10)}, tau : {QI(0)}, acc : {QI(-1), QI(0), QI(2)}, dd : {QI(0)}, dt : {Q(3, 16), Q(1, 4), QI(1), QI(2)}]
Quarter == [kind : {"quarter"}, a : 1..5, v : {QI(-2), QI(1), QI(5)}, tau : {Q(-1, 2), Q(1, 4), QI(1)}, acc : {QI(0)}, dd : {QI(0)}, dt : {QI(0)}]
Wind == [kind : {"wind"}, a : {1, 3}, v : {QI(-2), QI(5)}, tau : {Q(-1, 2), QI(0)}, acc : {QI(-1), QI(2)}, dd : {Q(-1, 8), Q(1, 4)}, dt : {Q(3, 16), Q(1, 4), QI(1)}]
Inputs == Steps \cup Straight \cup Quarter \cup Wind
Turn(x, bx, by) == LET c == Ang[x.a][1]  s == Ang[x.a][2] IN <<QSub(QMul(c, bx), QMul(s, by)), QAdd(QMul(s, bx), QMul(c, by))>>
Sgn(q) == IF q[1] > 0 THEN 1 ELSE IF q[1] < 0 THEN -1 ELSE 0
\* result: displacement, heading change (in quarter turns for "quarter"), new speed, change of steering
Step(x) == LET acc == QClip(x.acc, ALo, AHi)
               dd == QClip(x.dd, QNeg(DdMax), DdMax)
               om == QDiv(QMul(x.v, x.tau), L)
               p == Turn(x, QMul(x.v, x.dt), QMul(QMul(om, Lr), x.dt))
               chg == QMul(dd, x.dt)
           IN <<p[1], p[2], QMul(om, x.dt), QClip(QAdd(x.v, QMul(acc, x.dt)), VLo, VHi),
                IF Sgn(x.tau) > 0 THEN QMin(chg, Room) ELSE IF Sgn(x.tau) < 0 THEN QMax(chg, QNeg(Room)) ELSE chg>>
Glide(x) == LET p == Turn(x, QAdd(QMul(x.v, x.dt), QDiv(QMul(x.acc, QMul(x.dt, x.dt)), QI(2))), QI(0))
            IN <<p[1], p[2], QI(0), QAdd(x.v, QMul(x.acc, x.dt)), QI(0)>>
\* a quarter of the circle of the rear axle, whose centre is L/tau to the left of it
Arc(x) == LET R == QDiv(L, x.tau)  k == Sgn(x.v) * Sgn(x.tau)  \* +1: turns left by a quarter
              \* rear axle: from (0,0) heading 0 to R*(sin k90, 1 - cos k90) = R*(k, 1)
              rx == QMul(R, QI(k))  ry == R
              \* centre of gravity: rear axle + Lr * heading
              p == Turn(x, QSub(rx, Lr), QAdd(ry, QMul(Lr, QI(k))))
          IN <<p[1], p[2], QI(k), x.v, QI(0)>>
Out(x) == CASE x.kind = "step" -> Step(x) [] x.kind = "straight" -> Glide(x) [] x.kind = "quarter" -> Arc(x)
            [] x.kind = "wind" -> <<QI(0), QI(0), QI(0), QAdd(x.v, QMul(x.acc, x.dt)), QMul(x.dd, x.dt)>>
Init == i \in Inputs /\ d = <<>>
Next == d = <<>> /\ d' = Out(i) /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, d>>
Done == d # <<>>
Limited == Done /\ i.kind = "step" => QLe(VLo, d[4]) /\ QLe(d[4], VHi) /\ QLe(QAbs(d[5]), QMul(DdMax, i.dt))
StandsStill == Done /\ i.v = QI(0) /\ i.kind = "step" => d[1] = QI(0) /\ d[2] = QI(0) /\ d[3] = QI(0)
Emit == Done => CSVWrite("%1$s", <<ToJson([i |-> i, d |-> d])>>, IOEnv.OUT)
=============================================================================
