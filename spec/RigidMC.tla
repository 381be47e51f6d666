------------------------------- MODULE RigidMC -------------------------------
(***************************************************************************)
(* Rigid motion in the plane: from a pose the same step again and again, forwards *)
(* and backwards: a path of constant twist.  Interpolating between two poses of    *)
(* the path gives the ones in between.  Poses [x, y, c, s] with rational entries.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Rat
CONSTANTS Level
VARIABLES start, step, n, k, q
Zero == QI(0)
One == QI(1)
Rots == { <<One, Zero>>, <<Q(4, 5), Q(3, 5)>>, <<Q(4, 5), Q(-3, 5)>>, <<Q(3, 5), Q(4, 5)>>, <<Q(12, 13), Q(5, 13)>>, <<Q(12, 13), Q(-5, 13)>> }
          \cup (IF Level > 1 THEN {<<Q(24, 25), Q(7, 25)>>, <<Q(3, 5), Q(-4, 5)>>, <<Zero, One>>, <<Q(15, 17), Q(-8, 17)>>} ELSE {})
Shifts == {<<Zero, Zero>>, <<One, Zero>>, <<Q(1, 2), Q(-3, 2)>>, <<QI(-2), Q(1, 4)>>} \cup (IF Level > 1 THEN {<<QI(0), QI(3)>>, <<QI(5), QI(1)>>} ELSE {})
Pose(t, r) == [x |-> t[1], y |-> t[2], c |-> r[1], s |-> r[2]]
Mul(a, b) == [x |-> QAdd(a.x, QSub(QMul(a.c, b.x), QMul(a.s, b.y))), y |-> QAdd(a.y, QAdd(QMul(a.s, b.x), QMul(a.c, b.y))),
              c |-> QSub(QMul(a.c, b.c), QMul(a.s, b.s)), s |-> QAdd(QMul(a.s, b.c), QMul(a.c, b.s))]
Inv(a) == [x |-> QNeg(QAdd(QMul(a.c, a.x), QMul(a.s, a.y))), y |-> QSub(QMul(a.s, a.x), QMul(a.c, a.y)), c |-> a.c, s |-> QNeg(a.s)]
Id == Pose(<<Zero, Zero>>, <<One, Zero>>)
RECURSIVE Pow(_, _)
Pow(a, m) == IF m = 0 THEN Id ELSE IF m < 0 THEN Pow(Inv(a), -m) ELSE Mul(Pow(a, m - 1), a)
\* the whole turn stays below half a turn
Room(r) == IF r = <<One, Zero>> THEN 4 ELSE IF r[2] \in {Q(4, 5), Q(-4, 5)} THEN 3 ELSE IF r = <<Zero, One>> THEN 1 ELSE IF r[1] = Q(24, 25) THEN 2 ELSE IF r[1] \in {Q(12, 13), Q(15, 17)} THEN 3 ELSE 4
Starts == {Pose(<<Zero, Zero>>, <<One, Zero>>), Pose(<<QI(1), QI(-2)>>, <<Zero, One>>)}
Init == /\ start \in Starts /\ step \in {Pose(t, r) : t \in Shifts, r \in Rots} /\ n \in 1..Room(<<step.c, step.s>>)
        /\ k = 0 /\ q = start
Next == k < n /\ k' = k + 1 /\ q' = Mul(q, step) /\ UNCHANGED <<start, step, n>>
Spec == Init /\ [][Next]_<<start, step, n, k, q>>
Path == [m \in 0..n |-> Mul(start, Pow(step, m))]
---------------------------------------------------------------------------
Rigid == QAdd(QMul(q.c, q.c), QMul(q.s, q.s)) = One
Between == q = Mul(start, Pow(step, k))
Undone == Mul(q, Inv(q)) = Id /\ Mul(Inv(q), q) = Id
Relative == Mul(Inv(start), q) = Pow(step, k)                \* independent of where it started
Backwards == Mul(q, Pow(step, -k)) = start
Emit == (k = n) => CSVWrite("%1$s", <<ToJson([start |-> start, step |-> step, n |-> n, path |-> [m \in 1..(n + 1) |-> Path[m - 1]], before |-> Mul(start, Pow(step, -1)), back |-> Inv(q)])>>, IOEnv.OUT)
=============================================================================
