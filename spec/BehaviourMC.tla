----------------------------- MODULE BehaviourMC -----------------------------
(***************************************************************************)
(* The speed a driver aims at given the others around.  Positions of others in  *)
(* my frame (metres), headings relative to mine in 24ths of pi (none of    *)
(* them lies on a limit), speeds in m/s.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Rat
CONSTANTS Size
VARIABLES i, d
\* nominal speed, distance for yielding, least speed of those yielded to, time kept to those ahead
Params == {[nom |-> Q(100, 9), yd |-> QI(7), mv |-> Q(25, 18), st |-> Q(3, 2), name |-> "default"],
           [nom |-> QI(20), yd |-> QI(14), mv |-> QI(3), st |-> Q(151, 100), name |-> "other"]}
Others == [x : {Q(-6, 1), Q(1, 4), QI(1), QI(4), QI(6), QI(12), QI(21)}, y : {QI(0), Q(-1, 1), Q(2, 1), Q(-4, 1)},
           k : {0, 24, 1, -3, 5, -5, 7, -7, 11, -13, 17, -17, 19, -19, 23, -23}, v : {QI(-3), QI(0), QI(2), QI(8)}]
Few == {o \in Others : \/ o.x = QI(12) /\ o.y = QI(0) /\ o.k \in {0, 23} /\ o.v \in {QI(2), QI(8)}
                       \/ o.x = QI(4) /\ o.y = QI(2) /\ o.k \in {11, -13} /\ o.v \in {QI(0), QI(2), QI(8)}
                       \/ o.x = QI(12) /\ o.y = Q(-4, 1) /\ o.k \in {11, -13} /\ o.v = QI(8)
                       \/ o.x = QI(21) /\ o.y = Q(-1, 1) /\ o.k = -3 /\ o.v = QI(2)}
Some == {o \in Others : o.y \in {QI(0), Q(-4, 1)} /\ o.k \in {1, 5, 7, -7, 23} /\ o.v \in {QI(2), QI(8)} /\ o.x \notin {Q(1, 4), QI(21)}}
MyV == {QI(-1), QI(0), QI(4), QI(14)}
Sq(q) == QMul(q, q)
Dist2(o) == QAdd(Sq(o.x), Sq(o.y))
Closer(o, q) == QLt(QI(0), q) /\ QLt(Dist2(o), Sq(q))
Moving(p, o) == QLt(p.mv, o.v)
Max0(q) == QMax(q, QI(0))
\* its heading is 45 to 135 degrees to the left of mine: it comes from the right
Yield(p, o) == o.k >= 6 /\ o.k <= 18 /\ Moving(p, o) /\ Closer(o, p.yd)
FromLeft(p, o) == o.k <= -6 /\ o.k >= -18 /\ Moving(p, o) /\ Closer(o, p.yd)
HeadOn(p, o, my) == (o.k > 18 \/ o.k < -18) /\ QLt(QI(0), o.x) /\ QLe(QAbs(o.y), Q(6, 5)) /\ Closer(o, QMul(p.st, QAdd(my, o.v)))
Emergency(p, o, my) == FromLeft(p, o) \/ HeadOn(p, o, my)
Ahead(p, o, my) == QLt(Q(1, 2), o.x) /\ QLe(QAbs(o.y), Q(6, 5)) /\ o.k < 4 /\ o.k > -4 /\ Closer(o, QAdd(QMul(p.st, my), Max0(QSub(my, o.v))))
Follow(o, my) == QMin(Max0(QSub(o.v, Max0(QSub(my, o.v)))), Q(325, 9))
Tie(p, o, my) == \E q \in {p.yd, QMul(p.st, QAdd(my, o.v)), QAdd(QMul(p.st, my), Max0(QSub(my, o.v)))} : Dist2(o) = Sq(q)
RECURSIVE Least(_, _)
Least(S, q) == IF S = {} THEN q ELSE LET e == CHOOSE e \in S : TRUE IN Least(S \ {e}, QMin(e, q))
Answer(x) == LET os == {x.os[n] : n \in DOMAIN x.os}
                 em == \E o \in os : Emergency(x.p, o, x.my)
                 ye == \E o \in os : Yield(x.p, o)
             IN <<IF em \/ ye THEN QI(0) ELSE Least({Follow(o, x.my) : o \in {u \in os : Ahead(x.p, u, x.my)}}, x.p.nom), em>>
Inputs == {x \in [p : Params, my : MyV, os : {<<>>} \cup {<<o>> : o \in Others} \cup
                      (IF Size > 1 THEN {<<o, u>> : o \in Others, u \in Few} \cup {<<o, u>> : o \in Few, u \in Others} \cup {<<o, u, w>> : o \in Few, u \in Few, w \in Few} ELSE {<<o, u>> : o \in Few \cup Some, u \in Few} \cup {<<o, u>> : o \in Few, u \in Some})] :
             \A n \in DOMAIN x.os : ~Tie(x.p, x.os[n], x.my)}
Init == i \in Inputs /\ d = <<>>
Next == d = <<>> /\ d' = Answer(i) /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, d>>
Done == d # <<>>
\* never faster than nominal, never backwards, more company never makes it faster
Sane == Done => QLe(QI(0), d[1]) /\ QLe(d[1], i.p.nom) /\ (d[2] => d[1] = QI(0))
Monotone == Done /\ Len(i.os) >= 2 => LET a == Answer([i EXCEPT !.os = <<i.os[1]>>]) IN QLe(d[1], a[1]) /\ (a[2] => d[2])
Alone == Done /\ i.os = <<>> => d = <<i.p.nom, FALSE>>
Emit == Done => CSVWrite("%1$s", <<ToJson([i |-> i, d |-> d])>>, IOEnv.OUT)
=============================================================================
