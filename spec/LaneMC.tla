-------------------------------- MODULE LaneMC -------------------------------
(***************************************************************************)
(* Straight lanes with control points at uneven distances and uneven widths:   *)
(* progress along the lane, the parameter counting control points, the centre  *)
(* and half width there, the outline, and where in the lane a body is.          *)
(* The lane starts at 0 and leads along the x axis; metres.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Rat
CONSTANTS Size
VARIABLES i, d
Gaps == {Q(1, 2), QI(2), QI(5)}
Lanes == UNION {[gap : [1..n -> Gaps], pat : {1, 2}] : n \in 1..(IF Size > 1 THEN 4 ELSE 3)}
N(l) == Len(l.gap) + 1
Rad(l, k) == IF l.pat = 1 THEN Q(k + 1, 2) ELSE IF k % 2 = 0 THEN QI(2) ELSE Q(5, 4)
RECURSIVE X(_, _)
X(l, k) == IF k = 1 THEN QI(0) ELSE QAdd(X(l, k - 1), l.gap[k - 1])
Length(l) == X(l, N(l))
\* parameter (counts control points from 0; beyond the ends: metres) of a progress
Seg(l, a) == CHOOSE k \in 1..(N(l) - 1) : QLe(X(l, k), a) /\ QLt(a, X(l, k + 1))
Beta(l, a) == IF QLt(a, QI(0)) THEN a
              ELSE IF QLe(Length(l), a) THEN QAdd(QI(N(l) - 1), QSub(a, Length(l)))
              ELSE LET k == Seg(l, a) IN QAdd(QI(k - 1), QDiv(QSub(a, X(l, k)), l.gap[k]))
\* and back
Along(l, b) == IF QLt(b, QI(0)) THEN b
               ELSE IF QLe(QI(N(l) - 1), b) THEN QAdd(Length(l), QSub(b, QI(N(l) - 1)))
               ELSE LET k == QFloor(b) + 1 IN QAdd(X(l, k), QMul(l.gap[k], QSub(b, QI(k - 1))))
\* half width at a parameter
RadB(l, b) == IF QLt(b, QI(0)) THEN Rad(l, 1) ELSE IF QLe(QI(N(l) - 1), b) THEN Rad(l, N(l))
              ELSE LET k == QFloor(b) + 1  f == QSub(b, QI(k - 1)) IN QAdd(QMul(Rad(l, k), QSub(QI(1), f)), QMul(Rad(l, k + 1), f))
\* where a body with that progress, offset to the left and heading (24ths of pi, odd) is
Pose(l, a, y, k) ==
  LET r == RadB(l, Beta(l, a))
      lat == QLe(QNeg(r), y) /\ QLe(y, r)
      alo == QLe(QI(0), a) /\ QLt(a, Length(l))
  IN [r |-> r, lateral_inside |-> lat, along_inside |-> alo, inside |-> lat /\ alo, outside_left |-> QLt(r, y), outside_right |-> QLt(y, QNeg(r)),
      along_before |-> QLt(a, QI(0)), along_after |-> QLt(Length(l), a), correct_direction |-> (IF k < 0 THEN -k ELSE k) <= 12,
      distance_from_left |-> QAbs(QSub(r, y)), distance_from_right |-> QAbs(QAdd(r, y)), distance_from_center |-> QAbs(y)]
Steps(l) == {a \in {Q(n, 4) : n \in -8..(4 * 20 + 8)} : QLe(a, QAdd(Length(l), QI(2)))} \cup {Q(-1, 16), Q(1, 16), QAdd(Length(l), Q(-1, 16)), QAdd(Length(l), Q(1, 16))}
Lats == <<Q(-5, 2), QI(-1), QI(0), Q(1, 2), QI(3)>>
Heads == <<1, -11, 13, 23, -13, -5, 0>>
\* outline: m points per segment on either side
M == 3
Profile(l) == LET n == N(l) - 1 IN [k \in 1..(n * M) |-> LET b == Q((k - 1) * n, n * M - 1) IN <<Along(l, b), RadB(l, b)>>]
Queries(l) == {<<a, j>> : a \in Steps(l), j \in 1..35}
\* a share of the queries, every progress at least once
Use(l, a, j) == Size > 1 \/ (a[1] + a[2] + l.pat + l.gap[1][1]) % 35 = j - 1 \/ (a[1] * 3 + N(l)) % 35 = j - 1
Out(l) == [lane |-> [x |-> [k \in 1..N(l) |-> X(l, k)], r |-> [k \in 1..N(l) |-> Rad(l, k)], length |-> Length(l), profile |-> Profile(l)],
           q |-> {<<q[1], Beta(l, q[1]), Lats[((q[2] - 1) % 5) + 1], Heads[((q[2] - 1) % 7) + 1], Pose(l, q[1], Lats[((q[2] - 1) % 5) + 1], Heads[((q[2] - 1) % 7) + 1])>> :
                    q \in {u \in Queries(l) : Use(l, u[1], u[2])}}]
Init == i \in Lanes /\ d = <<>>
Next == d = <<>> /\ d' = <<Out(i)>> /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, d>>
Done == d # <<>>
Bijective == Done => \A a \in Steps(i) : Along(i, Beta(i, a)) = a
Rising == Done => \A a \in Steps(i), b \in Steps(i) : QLt(a, b) => QLt(Beta(i, a), Beta(i, b))
Exclusive == Done => \A q \in d[1].q : LET p == q[5] IN Cardinality({f \in {"lateral_inside", "outside_left", "outside_right"} : p[f]}) = 1
                      /\ ~(p.along_before /\ (p.along_inside \/ p.along_after)) /\ (p.along_inside => ~p.along_after)
Emit == Done => CSVWrite("%1$s", <<ToJson(d[1])>>, IOEnv.OUT)
=============================================================================
