-------------------------------- MODULE Safety -------------------------------
(***************************************************************************)
(* Safety metrics of a recorded run, seen from one of its players (the ego):    *)
(* smallest distance between outlines, smallest time to collision and largest   *)
(* braking it takes to avoid one.  The log is read one instant after the other.  *)
(* All outlines are boxes [-b, f] x [-w, w] in the frame of their body; poses are *)
(* <<x, y, cos, sin>> with rational entries, speeds are along the heading.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Rat
VARIABLES i, k, best
Scenes == JsonDeserialize(IOEnv.IN)
\* a scene: bodies: <<b, f, w>> of each player, goal: <<x0, x1, y0, y1>> or <<>> of each player, open: <<from, to>> when its goal counts, ego is player 1;
\* log: sequence of [t, s: for each player [x, y, c, s, v]], from, to: instants or -1
Sc == Scenes[i]
N == Len(Sc.bodies)
Sq(a) == QMul(a, a)
Plus3(a, b, c) == QAdd(QAdd(a, b), c)
\* corners of body p at pose s in the world; a point of the world in the frame of the pose
ToWorld(s, u, v) == <<Plus3(s.x, QMul(s.c, u), QNeg(QMul(s.s, v))), Plus3(s.y, QMul(s.s, u), QMul(s.c, v))>>
Corners(B, s) == <<ToWorld(s, QNeg(B[1]), QNeg(B[3])), ToWorld(s, B[2], QNeg(B[3])), ToWorld(s, B[2], B[3]), ToWorld(s, QNeg(B[1]), B[3])>>
ToBody(s, p) == LET a == QSub(p[1], s.x)  b == QSub(p[2], s.y) IN <<QAdd(QMul(s.c, a), QMul(s.s, b)), QSub(QMul(s.c, b), QMul(s.s, a))>>
\* corners of body B2 at s2 seen from s1
Seen(s1, B2, s2) == LET C == Corners(B2, s2) IN [j \in 1..4 |-> ToBody(s1, C[j])]
\* a line along a side of the box B separates it from the points P (in its frame)
Apart(B, P) == \/ \A j \in 1..4 : QLt(B[2], P[j][1])
               \/ \A j \in 1..4 : QLt(P[j][1], QNeg(B[1]))
               \/ \A j \in 1..4 : QLt(B[3], P[j][2])
               \/ \A j \in 1..4 : QLt(P[j][2], QNeg(B[3]))
Touch(B1, s1, B2, s2) == ~Apart(B1, Seen(s1, B2, s2)) /\ ~Apart(B2, Seen(s2, B1, s1))
Zero == QI(0)
Beyond(x, lo, hi) == IF QLt(x, lo) THEN QSub(lo, x) ELSE IF QLt(hi, x) THEN QSub(x, hi) ELSE Zero
PointDist2(B, p) == QAdd(Sq(Beyond(p[1], QNeg(B[1]), B[2])), Sq(Beyond(p[2], QNeg(B[3]), B[3])))
QMinOf(S) == CHOOSE a \in S : \A b \in S : QLe(a, b)
\* squared distance of two boxes: nothing if they touch, else from a corner of one to the other
Dist2(B1, s1, B2, s2) == IF Touch(B1, s1, B2, s2) THEN Zero
                         ELSE QMinOf({PointDist2(B1, Seen(s1, B2, s2)[j]) : j \in 1..4} \cup {PointDist2(B2, Seen(s2, B1, s1)[j]) : j \in 1..4})
\* --- motion along the headings
Vel(s) == <<QMul(s.v, s.c), QMul(s.v, s.s)>>
Rel(s1, s2) == LET a == Vel(s1)  b == Vel(s2) IN <<QSub(b[1], a[1]), QSub(b[2], a[2])>>
Off(s1, s2) == <<QSub(s2.x, s1.x), QSub(s2.y, s1.y)>>
Dot(a, b) == QAdd(QMul(a[1], b[1]), QMul(a[2], b[2]))
Closing(s1, s2) == QNeg(Dot(Off(s1, s2), Rel(s1, s2)))            \* times the distance of the centres
\* coming closer, and the centres would meet within five seconds
Relevant(s1, s2) == QLe(Zero, Closing(s1, s2)) /\ QLe(Dot(Off(s1, s2), Off(s1, s2)), QMul(QI(5), Closing(s1, s2)))
OnEdge(s1, s2) == LET dd == Dot(Off(s1, s2), Off(s1, s2)) IN dd = Zero \/ dd = QMul(QI(5), Closing(s1, s2))
Grown(B, e) == [j \in 1..3 |-> QAdd(B[j], e)]
After(s1, s2, n) == LET r == Rel(s1, s2) IN [s2 EXCEPT !.x = QAdd(@, QMul(r[1], Q(n, 10))), !.y = QAdd(@, QMul(r[2], Q(n, 10)))]
RECURSIVE FirstTouch(_, _, _, _, _)
\* first tenth of a second at which they touch, 99: not within three seconds
FirstTouch(B1, s1, B2, s2, n) == IF n > 31 THEN 99 ELSE IF Touch(B1, s1, B2, After(s1, s2, n)) THEN n ELSE FirstTouch(B1, s1, B2, s2, n + 1)
Eps == Q(1, 100)
\* 98: too close to call
Ttc(B1, s1, B2, s2) == LET a == FirstTouch(Grown(B1, Eps), s1, B2, s2, 0)  b == FirstTouch(Grown(B1, QNeg(Eps)), s1, B2, s2, 0) IN IF a = b THEN (IF a = 31 THEN 98 ELSE a) ELSE 98
\* braking: speed over twice the time to contact; <<>> stands for infinite
Drac(s, n) == IF n = 99 THEN <<Zero>> ELSE IF n = 0 \/ s.v[1] = 0 THEN <<>> ELSE <<QDiv(QMul(QAbs(s.v), QI(5)), QI(n))>>
---------------------------------------------------------------------------
InGoal(g, s) == g # <<>> /\ QLt(g[1], s.x) /\ QLt(s.x, g[2]) /\ QLt(g[3], s.y) /\ QLt(s.y, g[4])
Open(p, t) == Sc.open[p][1] <= t /\ t <= Sc.open[p][2]
Active(S, t) == {p \in 1..N : ~(Open(p, t) /\ InGoal(Sc.goal[p], S[p]))}
Others(S, t) == IF 1 \in Active(S, t) THEN Active(S, t) \ {1} ELSE {}
\* what is measured at one instant
Measure(S, t) ==
  LET O == Others(S, t)
      D == [p \in O |-> Dist2(Sc.bodies[1], S[1], Sc.bodies[p], S[p])]
      R == {p \in O : Relevant(S[1], S[p])}
      T == [p \in R |-> Ttc(Sc.bodies[1], S[1], Sc.bodies[p], S[p])]
      G == [p \in R |-> Drac(S[1], T[p])]
      dm == QMinOf({D[p] : p \in O})
      hit == {p \in R : T[p] < 98}
      tm == CHOOSE n \in {T[p] : p \in hit} : \A p \in hit : n <= T[p]
      gm == IF \E p \in R : G[p] = <<>> THEN <<>> ELSE CHOOSE g \in {G[p] : p \in R} : \A p \in R : QLe(G[p][1], g[1])
  IN [n |-> Cardinality(O),
      d2 |-> IF O = {} THEN <<>> ELSE <<dm>>, dwho |-> IF O = {} THEN {} ELSE {p \in O : D[p] = dm},
      ttc |-> IF hit = {} THEN 99 ELSE tm, twho |-> IF hit = {} THEN {} ELSE {p \in hit : T[p] = tm},
      drac |-> IF R = {} THEN "none" ELSE IF gm = <<>> THEN "inf" ELSE "num", dr |-> IF R # {} /\ gm # <<>> THEN gm[1] ELSE Zero,
      gwho |-> {p \in R : G[p] = gm},
      unclear |-> (\E p \in R : T[p] = 98) \/ \E p \in O : OnEdge(S[1], S[p])]
InRange(t) == (Sc.from < 0 \/ t >= Sc.from) /\ (Sc.to < 0 \/ t <= Sc.to)
None == [at |-> 0]
Init == /\ i \in 1..Len(Scenes) /\ k = 0
        /\ best = [d |-> 0, t |-> 0, g |-> 0, m |-> <<>>]
M(n) == best.m[n]
\* strictly better than the best so far: the first instant counts
Closer(m, n) == m.d2 # <<>> /\ (n = 0 \/ QLt(m.d2[1], M(n).d2[1]))
Sooner(m, n) == m.ttc # 99 /\ (n = 0 \/ m.ttc < M(n).ttc)
Harder(m, n) == m.drac # "none" /\ (n = 0 \/ (M(n).drac = "num" /\ (m.drac = "inf" \/ QLt(M(n).dr, m.dr))))
Next == /\ k < Len(Sc.log) /\ k' = k + 1 /\ UNCHANGED i
        /\ LET e == Sc.log[k + 1]  m == Measure(e.s, e.t)  ok == InRange(e.t) IN
           best' = [d |-> IF ok /\ Closer(m, best.d) THEN k + 1 ELSE best.d,
                    t |-> IF ok /\ Sooner(m, best.t) THEN k + 1 ELSE best.t,
                    g |-> IF ok /\ Harder(m, best.g) THEN k + 1 ELSE best.g,
                    m |-> Append(best.m, m)]
Spec == Init /\ [][Next]_<<i, k, best>>
Done == k = Len(Sc.log)
---------------------------------------------------------------------------
\* laws
Within == {n \in 1..k : InRange(Sc.log[n].t)}
Smallest == best.d # 0 => best.d \in Within /\ \A n \in Within : M(n).d2 # <<>> => QLe(M(best.d).d2[1], M(n).d2[1])
Missing == (best.d = 0) <=> (\A n \in Within : M(n).d2 = <<>>)
Soonest == best.t # 0 => best.t \in Within /\ \A n \in Within : M(best.t).ttc <= M(n).ttc
Largest == best.g # 0 => best.g \in Within /\ (M(best.g).drac = "inf" \/ \A n \in Within : M(n).drac = "none" \/ (M(n).drac = "num" /\ QLe(M(n).dr, M(best.g).dr)))
\* touching means no distance, and the other way round; it does not matter who is who
Symmetric == k > 0 => LET S == Sc.log[k].s IN \A p \in 2..N : Dist2(Sc.bodies[1], S[1], Sc.bodies[p], S[p]) = Dist2(Sc.bodies[p], S[p], Sc.bodies[1], S[1])
NoGap == k > 0 => \A n \in 1..k : (M(n).ttc = 0 => M(n).d2[1] = Zero)
Emit == Done => CSVWrite("%1$s", <<ToJson([i |-> i, best |-> best])>>, IOEnv.OUT)
=============================================================================
