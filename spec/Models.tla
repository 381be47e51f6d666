------------------------------- MODULE Models --------------------------------
(***************************************************************************)
(* The motion models, in exact rational arithmetic: the state derivative     *)
(* each model has for a state and a command, with its actuation limits.       *)
(* Angles are rational points <<cos, sin>> of the unit circle; steering and   *)
(* nozzle angles are given by an ordered index into such points.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat
\* which set of parameters the models have
CONSTANT PSet

Ang == << <<QI(1), QI(0)>>, <<QI(0), QI(1)>>, <<Q(-3, 5), Q(4, 5)>>, <<Q(5, 13), Q(-12, 13)>>, <<QI(-1), QI(0)>> >>
\* nozzle angles, increasing
Nz(k) == LET c == <<QI(1), Q(4, 5), Q(3, 5), QI(0)>>  s == <<QI(0), Q(3, 5), Q(4, 5), QI(1)>>
             j == (IF k < 0 THEN -k ELSE k) + 1
         IN <<c[j], IF k < 0 THEN QNeg(s[j]) ELSE s[j]>>

RotX(a, vx, vy) == QSub(QMul(vx, a[1]), QMul(vy, a[2]))
RotY(a, vx, vy) == QAdd(QMul(vx, a[2]), QMul(vy, a[1]))
Zero == QI(0)
\* a rate that would push a quantity further beyond a limit it has reached is suppressed
Gate(v, rate, lo, hi) == IF (QLe(v, lo) /\ QLt(rate, Zero)) \/ (QLe(hi, v) /\ QLt(Zero, rate)) THEN Zero ELSE rate
Acc(v, a, p) == Gate(v, QClip(a, p.alo, p.ahi), p.vlo, p.vhi)

----------------------------------------------------------------------------
\* kinematic bicycle: state vx, tau = tan(steering angle)
VehP == IF PSet = 1 THEN [wb |-> QI(3), lr |-> QI(2), alo |-> QI(-8), ahi |-> QI(5), vlo |-> QI(-2), vhi |-> QI(10), tmax |-> Q(3, 4), dmax |-> Q(1, 2)]
        ELSE [wb |-> QI(3), lr |-> QI(2), alo |-> QI(-9), ahi |-> QI(3), vlo |-> QI(0), vhi |-> Q(7, 2), tmax |-> Q(1, 2), dmax |-> Q(1, 4)]
Steer(tau, dd, p) == IF (QLe(tau, QNeg(p.tmax)) /\ QLt(dd, Zero)) \/ (QLe(p.tmax, tau) /\ QLt(Zero, dd)) THEN Zero ELSE QClip(dd, QNeg(p.dmax), p.dmax)
VehV(i) == LET w == QDiv(QMul(i.vx, i.tau), VehP.wb) IN [vx |-> i.vx, vy |-> QMul(w, VehP.lr), w |-> w]
VehD(i) == LET v == VehV(i) IN <<RotX(Ang[i.a], v.vx, v.vy), RotY(Ang[i.a], v.vx, v.vy), v.w, Acc(i.vx, i.acc, VehP), Steer(i.tau, i.dd, VehP)>>
VehIn == [vx : {QI(-3), QI(-2), QI(0), Q(7, 2), QI(10), QI(11)}, tau : {QI(-1), Q(-3, 4), QI(0), Q(1, 2), Q(3, 4)}, a : 1..5,
          acc : {QI(-9), QI(-8), QI(0), QI(3), QI(7)}, dd : {QI(-1), Q(-1, 4), QI(0), Q(1, 2), QI(2)}]
\* pedestrian
PedP == IF PSet = 1 THEN [alo |-> QI(-3), ahi |-> QI(4), vlo |-> QI(-1), vhi |-> QI(5), wmax |-> Q(9, 2)]
        ELSE [alo |-> QI(-1), ahi |-> QI(6), vlo |-> QI(0), vhi |-> QI(2), wmax |-> Q(1, 2)]
PedD(i) == <<RotX(Ang[i.a], i.vx, i.vy), RotY(Ang[i.a], i.vx, i.vy), QClip(i.w, QNeg(PedP.wmax), PedP.wmax), Acc(i.vx, i.acc, PedP), Zero, Zero>>
PedIn == [vx : {QI(-2), QI(-1), QI(0), QI(2), QI(5), QI(6)}, vy : {QI(0), Q(-3, 2)}, a : 1..5, acc : {QI(-5), QI(-1), QI(0), QI(4), QI(6)},
          w : {QI(-6), QI(-4), QI(0), Q(1, 2), QI(5)}]
\* differential drive
DifP == IF PSet = 1 THEN [lo |-> QI(-4), hi |-> QI(5), wb |-> Q(1, 2), r |-> Q(1, 5)]
        ELSE [lo |-> QI(0), hi |-> QI(2), wb |-> Q(3, 4), r |-> Q(1, 2)]
DifD(i) == LET l == QClip(i.l, DifP.lo, DifP.hi)  r == QClip(i.r, DifP.lo, DifP.hi)
               s == QMul(DifP.r, QDiv(QAdd(l, r), QI(2)))
           IN <<QMul(s, Ang[i.a][1]), QMul(s, Ang[i.a][2]), QMul(DifP.r, QDiv(QSub(r, l), DifP.wb))>>
DifIn == [a : 1..5, l : {QI(-6), QI(-4), QI(0), QI(2), QI(5), QI(9)}, r : {QI(-6), QI(-4), QI(0), Q(3, 2), QI(5), QI(9)}]
\* dynamic obstacle (body-frame velocities, total acceleration limited)
DynP == IF PSet = 1 THEN [alo |-> QI(-3), ahi |-> QI(2), vlo |-> QI(-4), vhi |-> QI(6), wlo |-> QI(-2), whi |-> QI(1), glo |-> QI(-1), ghi |-> Q(3, 2)]
        ELSE [alo |-> QI(-1), ahi |-> QI(4), vlo |-> QI(-5), vhi |-> QI(1), wlo |-> QI(0), whi |-> Q(1, 2), glo |-> QI(-3), ghi |-> Q(1, 4)]
DynD(i) == <<RotX(Ang[i.a], i.vx, i.vy), RotY(Ang[i.a], i.vx, i.vy), i.w,
             Acc(i.vx, QAdd(i.ax, QMul(i.w, i.vy)), DynP), Acc(i.vy, QSub(i.ay, QMul(i.w, i.vx)), DynP),
             Gate(i.w, QClip(i.g, DynP.glo, DynP.ghi), DynP.wlo, DynP.whi)>>
DynIn == [vx : {QI(-4), QI(1), QI(6)}, vy : {QI(-5), QI(0), QI(2)}, w : {QI(-2), QI(0), Q(1, 2), QI(1)}, a : {1, 3, 4},
          ax : {QI(-5), QI(0), QI(1)}, ay : {QI(-1), QI(0), QI(4)}, g : {QI(-3), Q(1, 2), QI(2)}]
\* spacecraft (two thrusters; body-frame velocities)
CraP == IF PSet = 1 THEN [lo |-> QI(-10), hi |-> QI(8), wlo |-> QI(-2), whi |-> QI(3), k |-> Q(3 * 50, 100)]
        ELSE [lo |-> QI(0), hi |-> QI(3), wlo |-> QI(0), whi |-> QI(1), k |-> Q(3 * 50, 100)]   \* half width * mass / inertia
CraD(i) == LET l == QClip(i.l, CraP.lo, CraP.hi)  r == QClip(i.r, CraP.lo, CraP.hi) IN
           <<RotX(Ang[i.a], i.vx, i.vy), RotY(Ang[i.a], i.vx, i.vy), i.w, QAdd(QAdd(l, r), QMul(i.vy, i.w)), QNeg(QMul(i.vx, i.w)),
             Gate(i.w, QMul(CraP.k, QSub(r, l)), CraP.wlo, CraP.whi)>>
CraIn == [vx : {QI(-3), QI(0), Q(5, 2)}, vy : {QI(0), QI(2)}, w : {QI(-3), QI(-2), QI(0), QI(1), QI(3)}, a : 1..5,
          l : {QI(-12), QI(0), QI(3), QI(8)}, r : {QI(-10), QI(0), QI(1), QI(11)}]
\* spaceship (one steerable thruster, fuel; body-frame velocities)
ShiP == IF PSet = 1 THEN [iz |-> QI(2), l |-> QI(3), ct |-> Q(1, 100), flo |-> QI(-2), fhi |-> QI(3), nmin |-> -2, nmax |-> 2, dlo |-> Q(-1, 2), dhi |-> Q(3, 4), mv |-> QI(2)]
        ELSE [iz |-> QI(3), l |-> QI(2), ct |-> Q(1, 50), flo |-> QI(0), fhi |-> QI(1), nmin |-> 0, nmax |-> 3, dlo |-> QI(-1), dhi |-> Q(1, 4), mv |-> Q(3, 2)]
NzRate(k, d, p) == LET c == QClip(d, p.dlo, p.dhi) IN IF (k <= p.nmin /\ QLt(c, Zero)) \/ (k >= p.nmax /\ QLt(Zero, c)) THEN Zero ELSE c
ShiD(i) == LET f == IF QLe(i.m, ShiP.mv) THEN Zero ELSE QClip(i.f, ShiP.flo, ShiP.fhi)  n == Nz(i.n) IN
           <<RotX(Ang[i.a], i.vx, i.vy), RotY(Ang[i.a], i.vx, i.vy), i.w,
             QAdd(QDiv(QMul(n[1], f), i.m), QMul(i.w, i.vy)), QSub(QDiv(QMul(n[2], f), i.m), QMul(i.w, i.vx)),
             QNeg(QDiv(QMul(ShiP.l, QMul(n[2], f)), ShiP.iz)), NzRate(i.n, i.d, ShiP), QNeg(QMul(ShiP.ct, f))>>
ShiIn == [vx : {QI(-3), Q(5, 2)}, vy : {QI(0), QI(2)}, w : {QI(0), QI(-1)}, n : -3..3, m : {Q(3, 2), QI(2), Q(5, 2)}, a : {1, 3, 4},
          f : {QI(-3), QI(0), QI(1), QI(4)}, d : {QI(-1), Q(1, 4), QI(1)}]
\* rocket (two steerable thrusters, fuel; world-frame velocities)
RocP == IF PSet = 1 THEN [iz |-> QI(2), l |-> Q(1, 4), ct |-> Q(1, 100), flo |-> QI(0), fhi |-> QI(3), nmin |-> -2, nmax |-> 2, dlo |-> Q(-1, 3), dhi |-> Q(1, 4), mv |-> QI(2)]
        ELSE [iz |-> QI(3), l |-> Q(1, 2), ct |-> Q(1, 50), flo |-> QI(-1), fhi |-> QI(4), nmin |-> -3, nmax |-> 1, dlo |-> Q(-1, 2), dhi |-> QI(1), mv |-> Q(3, 2)]
RocD(i) == LET e == QLe(i.m, RocP.mv)
               l == IF e THEN Zero ELSE QClip(i.l, RocP.flo, RocP.fhi)
               r == IF e THEN Zero ELSE QClip(i.r, RocP.flo, RocP.fhi)
               p == Ang[i.a]  n == Nz(i.n)
               sPlus == QAdd(QMul(p[2], n[1]), QMul(p[1], n[2]))      \* sin(psi + phi)
               cPlus == QSub(QMul(p[1], n[1]), QMul(p[2], n[2]))
               sMin == QSub(QMul(n[2], p[1]), QMul(n[1], p[2]))       \* sin(phi - psi)
               cMin == QAdd(QMul(n[1], p[1]), QMul(n[2], p[2]))
           IN <<i.vx, i.vy, i.w, QDiv(QAdd(QMul(sPlus, l), QMul(sMin, r)), i.m), QDiv(QSub(QMul(cMin, r), QMul(cPlus, l)), i.m),
                QDiv(QMul(RocP.l, QMul(n[1], QSub(r, l))), RocP.iz), NzRate(i.n, i.d, RocP), QNeg(QMul(RocP.ct, QAdd(l, r)))>>
RocIn == [vx : {QI(-3), Q(5, 2)}, vy : {QI(2)}, w : {QI(0), QI(-1)}, n : -3..3, m : {Q(3, 2), QI(2), Q(5, 2)}, a : {1, 3, 4},
          l : {QI(-2), QI(1), QI(4)}, r : {QI(0), QI(-2), QI(5)}, d : {QI(-1), Q(1, 5), QI(1)}]

Kinds == {"veh", "ped", "dif", "dyn", "cra", "shi", "roc"}
Inputs(k) == CASE k = "veh" -> VehIn [] k = "ped" -> PedIn [] k = "dif" -> DifIn [] k = "dyn" -> DynIn [] k = "cra" -> CraIn
               [] k = "shi" -> ShiIn [] k = "roc" -> RocIn
Deriv(k, i) == CASE k = "veh" -> VehD(i) [] k = "ped" -> PedD(i) [] k = "dif" -> DifD(i) [] k = "dyn" -> DynD(i) [] k = "cra" -> CraD(i)
                 [] k = "shi" -> ShiD(i) [] k = "roc" -> RocD(i)
=============================================================================
