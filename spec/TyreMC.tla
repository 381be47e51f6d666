------------------------------- MODULE TyreMC --------------------------------
(***************************************************************************)
(* The single-track vehicle on tyres, exactly: slip angles of both axles,       *)
(* vertical loads (shifted by the acceleration), forces across (a given share of  *)
(* the grip, against the slip), what is left for driving and braking, rolling      *)
(* resistance, air, and the sliding of a body that has collided.  Below 0.1 m/s    *)
(* it moves like the kinematic one.                                               *)
(* Forces are per unit of mass.  A tyre uses share k[1] of its grip if it slips.    *)
(***************************************************************************)
EXTENDS Models, TLC, Json, CSV, IOUtils
VARIABLES i, d
Out == IOEnv.OUT
G == Q(981, 100)
Wb == QI(3)  Lf == QI(1)  Lr == QI(2)
H == Q(3, 4)                                   \* height of the centre of mass
MIz == Q(1, 2)                                 \* mass / inertia
Air == Q(1, 1000)                              \* drag per mass and squared speed
RollF == Q(1, 50)  RollR == Q(1, 40)
\* share of the grip used and what it leaves: points of the unit circle
Share(k) == <<Q(3, 5), Q(24, 25), QI(1)>>[k]
Left(k) == <<Q(4, 5), Q(7, 25), QI(0)>>[k]
Sg(q) == IF q[1] > 0 THEN QI(1) ELSE IF q[1] < 0 THEN QI(-1) ELSE QI(0)
Slow(x) == QLt(x.vx, Q(1, 10))
\* velocity of the front tyre in its own frame; slip of the rear one
Vf(x) == LET n == Nz(x.n)  v == QAdd(x.vy, QMul(Lf, x.w)) IN <<QAdd(QMul(n[1], x.vx), QMul(n[2], v)), QSub(QMul(n[1], v), QMul(n[2], x.vx))>>
SlipF(x) == QDiv(Vf(x)[2], Vf(x)[1])
SlipR(x) == QDiv(QSub(x.vy, QMul(Lr, x.w)), x.vx)
Mu(x) == IF x.two THEN QI(3) ELSE QI(1)
Slide(x, v) == IF x.col THEN QNeg(QMul(Mu(x), v)) ELSE Zero
Fast(x) ==
  LET n == Nz(x.n)
      a == Acc(x.vx, x.acc, VehP)
      lF == QDiv(QSub(QMul(G, Lr), QMul(H, a)), Wb)          \* loads
      lR == QDiv(QAdd(QMul(G, Lf), QMul(H, a)), Wb)
      sF == SlipF(x)  sR == SlipR(x)
      yF == QNeg(QMul(QMul(Sg(sF), Share(x.k[1])), QMul(x.g[1], lF)))
      yR == QNeg(QMul(QMul(Sg(sR), Share(x.k[2])), QMul(x.g[2], lR)))
      braking == QLe(a, Zero)
      dF == QMul(QSub(QMul(a, IF braking THEN Q(3, 5) ELSE Q(1, 2)), QMul(RollF, lF)), IF sF = Zero THEN QI(1) ELSE Left(x.k[1]))
      dR == QMul(QSub(QMul(a, IF braking THEN Q(2, 5) ELSE Q(1, 2)), QMul(RollR, lR)), IF sR = Zero THEN QI(1) ELSE Left(x.k[2]))
      fx == QSub(QMul(n[1], dF), QMul(n[2], yF))
      fy == QAdd(QMul(n[2], dF), QMul(n[1], yF))
  IN <<RotX(Ang[x.a], x.vx, x.vy), RotY(Ang[x.a], x.vx, x.vy), x.w,
       QAdd(QAdd(QSub(QAdd(fx, dR), QMul(Air, QMul(x.vx, x.vx))), QMul(x.w, x.vy)), Slide(x, x.vx)),
       QAdd(QSub(QAdd(fy, yR), QMul(x.w, x.vx)), Slide(x, x.vy)),
       QAdd(QMul(MIz, QSub(QMul(fy, Lf), QMul(yR, Lr))), Slide(x, x.w))>>
Creep(x) == LET n == Nz(x.n)  k == VehD([vx |-> x.vx, tau |-> QDiv(n[2], n[1]), a |-> x.a, acc |-> x.acc, dd |-> x.dd]) IN
            <<k[1], k[2], k[3], QAdd(k[4], Slide(x, x.vx)), Slide(x, x.vy), Slide(x, x.w)>>
TyreD(x) == IF Slow(x) THEN Creep(x) ELSE Fast(x)
SteerRate(x) == Steer(QDiv(Nz(x.n)[2], Nz(x.n)[1]), x.dd, VehP)

Ins == {x \in [vx : {Q(1, 20), QI(2), Q(7, 2), QI(9)}, vy : {QI(0), QI(1), Q(-1, 2)}, w : {QI(0), Q(1, 2), QI(-1)}, n : -2..2, a : {3, 4},
               cmd : {<<QI(-9), Q(1, 8)>>, <<QI(0), QI(-1)>>, <<QI(2), Q(-1, 5)>>, <<QI(-2), QI(0)>>, <<QI(6), Q(1, 4)>>, <<Q(-2, 5), Q(1, 8)>>},
               tyre : {<<1, 1, QI(1), Q(4, 5)>>, <<1, 2, Q(9, 10), QI(1)>>, <<2, 3, Q(1, 2), QI(1)>>, <<3, 1, QI(1), Q(6, 5)>>}, col : BOOLEAN, two : BOOLEAN] :
          QLt(Zero, Vf(x)[1]) /\ (x.two => x.a = 3)}
Full(x) == [vx |-> x.vx, vy |-> x.vy, w |-> x.w, n |-> x.n, a |-> x.a, acc |-> x.cmd[1], dd |-> x.cmd[2], k |-> <<x.tyre[1], x.tyre[2]>>,
            g |-> <<x.tyre[3], x.tyre[4]>>, col |-> x.col, two |-> x.two]
Init == i \in {Full(x) : x \in Ins} /\ d = <<>>
Next == d = <<>> /\ d' = TyreD(i) /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, d>>
Done == d # <<>>
\* sliding to a side or turning, the tyres push back; a mirrored situation gives the mirrored motion
Mir(x) == [x EXCEPT !.vy = QNeg(@), !.w = QNeg(@), !.n = -@, !.dd = QNeg(@)]
Mirrored == Done => (LET e == TyreD(Mir(i)) IN e[3] = QNeg(d[3]) /\ e[4] = d[4] /\ e[5] = QNeg(d[5]) /\ e[6] = QNeg(d[6]))
PushBack == Done /\ ~Slow(i) /\ i.n = 0 /\ i.w = Zero /\ i.vy # Zero => QLt(QMul(d[5], i.vy), Zero)
Straight == Done /\ ~Slow(i) /\ i.n = 0 /\ i.w = Zero /\ i.vy = Zero => d[5] = Zero /\ d[6] = Zero /\ QLe(d[4], Acc(i.vx, i.acc, VehP))
Free == Acc(i.vx, i.acc, VehP) = i.acc /\ SteerRate(i) = i.dd
Emit == Done => CSVWrite("%1$s", <<ToJson([i |-> i, d |-> d, free |-> Free, p |-> PSet, dd |-> SteerRate(i), slow |-> Slow(i),
                                          slip |-> <<SlipF(i), SlipR(i)>>])>>, Out)
=============================================================================
