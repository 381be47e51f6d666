------------------------------ MODULE ModelsMC -------------------------------
(* Theorems about the models over a grid of states and commands, and the       *)
(* expected derivative of every point of the grid.                             *)
EXTENDS Models, TLC, Json, CSV, IOUtils
CONSTANTS Kind
Out == IOEnv.OUT
VARIABLES i, d
vars == <<i, d>>
Init == i \in Inputs(Kind) /\ d = <<>>
Next == d = <<>> /\ d' = Deriv(Kind, i) /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Done == d # <<>>
Sq(u, w) == QAdd(QMul(u, u), QMul(w, w))
\* the body-frame derivative does not depend on the heading (world-frame velocities: the rocket's acceleration turns with it)
FrameFree == Done => \A b \in 1..5 : LET e == Deriv(Kind, [i EXCEPT !.a = b]) IN
               /\ Sq(d[1], d[2]) = Sq(e[1], e[2])
               /\ d[3] = e[3]
               /\ IF Kind = "roc" THEN Sq(d[4], d[5]) = Sq(e[4], e[5]) /\ \A k \in 6..8 : d[k] = e[k] ELSE \A k \in 3..Len(d) : d[k] = e[k]
In(x, lo, hi) == QLe(lo, x) /\ QLe(x, hi)
\* rates stay within the limits and never push a quantity beyond a limit it has reached
Limited == Done => CASE Kind = "veh" -> In(d[4], VehP.alo, VehP.ahi) /\ In(d[5], QNeg(VehP.dmax), VehP.dmax)
                                 /\ (QLe(VehP.vhi, i.vx) => QLe(d[4], Zero)) /\ (QLe(i.vx, VehP.vlo) => QLe(Zero, d[4]))
                                 /\ (QLe(VehP.tmax, i.tau) => QLe(d[5], Zero)) /\ (QLe(i.tau, QNeg(VehP.tmax)) => QLe(Zero, d[5]))
             [] Kind = "ped" -> In(d[4], PedP.alo, PedP.ahi) /\ In(d[3], QNeg(PedP.wmax), PedP.wmax)
                                 /\ (QLe(PedP.vhi, i.vx) => QLe(d[4], Zero)) /\ (QLe(i.vx, PedP.vlo) => QLe(Zero, d[4]))
             [] Kind = "dyn" -> In(d[4], DynP.alo, DynP.ahi) /\ In(d[5], DynP.alo, DynP.ahi) /\ In(d[6], DynP.glo, DynP.ghi)
                                 /\ (QLe(DynP.whi, i.w) => QLe(d[6], Zero)) /\ (QLe(i.w, DynP.wlo) => QLe(Zero, d[6]))
             [] Kind = "cra" -> (QLe(CraP.whi, i.w) => QLe(d[6], Zero)) /\ (QLe(i.w, CraP.wlo) => QLe(Zero, d[6]))
             [] Kind = "shi" -> In(d[7], ShiP.dlo, ShiP.dhi) /\ (i.n >= ShiP.nmax => QLe(d[7], Zero)) /\ (i.n <= ShiP.nmin => QLe(Zero, d[7]))
                                 /\ (QLe(i.m, ShiP.mv) => d[8] = Zero /\ d[6] = Zero)
             [] Kind = "roc" -> In(d[7], RocP.dlo, RocP.dhi) /\ (i.n >= RocP.nmax => QLe(d[7], Zero)) /\ (i.n <= RocP.nmin => QLe(Zero, d[7]))
                                 /\ (QLe(Zero, RocP.flo) => QLe(d[8], Zero)) /\ (QLe(i.m, RocP.mv) => d[8] = Zero /\ d[4] = Zero /\ d[5] = Zero /\ d[6] = Zero)
             [] OTHER -> TRUE
\* does a limit act in this case?  (then the case decides the actuation property, otherwise the motion property)
Free == CASE Kind = "veh" -> d[4] = i.acc /\ d[5] = i.dd
          [] Kind = "ped" -> d[4] = i.acc /\ d[3] = i.w
          [] Kind = "dif" -> In(i.l, DifP.lo, DifP.hi) /\ In(i.r, DifP.lo, DifP.hi)
          [] Kind = "dyn" -> d[4] = QAdd(i.ax, QMul(i.w, i.vy)) /\ d[5] = QSub(i.ay, QMul(i.w, i.vx)) /\ d[6] = i.g
          [] Kind = "cra" -> In(i.l, CraP.lo, CraP.hi) /\ In(i.r, CraP.lo, CraP.hi) /\ d[6] = QMul(CraP.k, QSub(i.r, i.l))
          [] Kind = "shi" -> d[7] = i.d /\ In(i.f, ShiP.flo, ShiP.fhi) /\ QLt(ShiP.mv, i.m)
          [] Kind = "roc" -> d[7] = i.d /\ In(i.l, RocP.flo, RocP.fhi) /\ In(i.r, RocP.flo, RocP.fhi) /\ QLt(RocP.mv, i.m)
Emit == Done => CSVWrite("%1$s", <<ToJson([k |-> Kind, p |-> PSet, i |-> i, d |-> d, free |-> Free])>>, Out)
=============================================================================
