------------------------------- MODULE Impact --------------------------------
(***************************************************************************)
(* The impact of two bodies, exactly: where and in which direction they meet, *)
(* whether they are closing, and the velocities after an impulsive,           *)
(* frictionless contact.                                                     *)
(* Bodies are rectangles [x0, x1] x [y0, y1] in a canonical frame (the harness *)
(* replays every case under arbitrary rigid motions); a body is                *)
(* [box |-> <<x0, y0, x1, y1>>, c |-> <<x, y>> (centre of mass), m, iz, e,      *)
(*  v |-> <<vx, vy>>, w].  A body that cannot move has inv |-> TRUE.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat

Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Box(b) == [x0 |-> b[1], y0 |-> b[2], x1 |-> b[3], y1 |-> b[4]]
Strictly(p, b) == b[1] < p[1] /\ p[1] < b[3] /\ b[2] < p[2] /\ p[2] < b[4]
Contains(a, b) == a[1] <= b[1] /\ a[2] <= b[2] /\ b[3] <= a[3] /\ b[4] <= a[4]
Within(a, b) == a[1] < b[1] /\ a[2] < b[2] /\ b[3] < a[3] /\ b[4] < a[4]
Overlap(a, b) == <<Mx(a[1], b[1]), Mx(a[2], b[2]), Mn(a[3], b[3]), Mn(a[4], b[4])>>
Proper(o) == o[1] < o[3] /\ o[2] < o[4]
Corners(o) == {<<o[1], o[2]>>, <<o[3], o[2]>>, <<o[3], o[4]>>, <<o[1], o[4]>>}
\* where the two outlines cross
Crossings(a, b) == {p \in Corners(Overlap(a, b)) : ~Strictly(p, a) /\ ~Strictly(p, b)}
SqrtOf(k) == LET R == {r \in 0..40 : r * r = k} IN IF R = {} THEN -1 ELSE CHOOSE r \in R : TRUE
\* the contact: twice the impact point, and the unit normal pointing out of a (numerators over `len`)
Contact(a, b) ==
  IF Contains(a, b)
  THEN LET cb == <<b[1] + b[3], b[2] + b[4]>>  ca == <<a[1] + a[3], a[2] + a[4]>>
           d == <<cb[1] - ca[1], cb[2] - ca[2]>>
       IN [ok |-> SqrtOf(d[1] * d[1] + d[2] * d[2]) > 0 /\ Within(a, b), p2 |-> cb, n |-> d, len |-> SqrtOf(d[1] * d[1] + d[2] * d[2]), kind |-> "inside"]
  ELSE LET X == Crossings(a, b)
           f == CHOOSE p \in X : TRUE
           g == CHOOSE p \in X : p # f
           k == SqrtOf((g[1] - f[1]) * (g[1] - f[1]) + (g[2] - f[2]) * (g[2] - f[2]))
           n == <<f[2] - g[2], g[1] - f[1]>>
           out == n[1] * (f[1] + g[1] - a[1] - a[3]) + n[2] * (f[2] + g[2] - a[2] - a[4])
       IN IF ~Proper(Overlap(a, b)) \/ Cardinality(X) # 2 \/ Contains(b, a) THEN [ok |-> FALSE]
          ELSE [ok |-> k > 0 /\ out # 0, p2 |-> <<f[1] + g[1], f[2] + g[2]>>, n |-> IF out < 0 THEN <<-n[1], -n[2]>> ELSE n, len |-> k,
                kind |-> IF n[1] = 0 \/ n[2] = 0 THEN "side" ELSE "corner"]

Dot(u, v) == QAdd(QMul(u[1], v[1]), QMul(u[2], v[2]))
Crs(u, v) == QSub(QMul(u[1], v[2]), QMul(u[2], v[1]))
Sub2(u, v) == <<QSub(u[1], v[1]), QSub(u[2], v[2])>>
Add2(u, v) == <<QAdd(u[1], v[1]), QAdd(u[2], v[2])>>
Scale(k, u) == <<QMul(k, u[1]), QMul(k, u[2])>>
QV(v) == <<QI(v[1]), QI(v[2])>>
\* velocity of the point at r of a body moving with v, turning with w
PointVel(v, w, r) == <<QSub(v[1], QMul(w, r[2])), QAdd(v[2], QMul(w, r[1]))>>
Arm(b, ct) == <<Q(ct.p2[1] - 2 * b.c[1], 2), Q(ct.p2[2] - 2 * b.c[2], 2)>>
Inv(b) == IF b.inv THEN QI(0) ELSE Q(1, b.m)
InvI(b) == IF b.inv THEN QI(0) ELSE Q(1, b.iz)
Normal(ct) == <<Q(ct.n[1], ct.len), Q(ct.n[2], ct.len)>>

Resolve(a, b) ==
  LET ct == Contact(a.box, b.box)
      n  == Normal(ct)
      ra == Arm(a, ct)  rb == Arm(b, ct)
      rel == Sub2(PointVel(QV(a.v), QI(a.w), ra), PointVel(QV(b.v), QI(b.w), rb))
      vn == Dot(rel, n)
      xa == Crs(ra, n)  xb == Crs(rb, n)
      K  == QAdd(QAdd(Inv(a), Inv(b)), QAdd(QMul(QMul(xa, xa), InvI(a)), QMul(QMul(xb, xb), InvI(b))))
      e  == IF QLe(a.e, b.e) THEN a.e ELSE b.e
      j  == QNeg(QDiv(QMul(QAdd(QI(1), e), vn), K))          \* impulse on a along n
      va == Add2(QV(a.v), Scale(QMul(j, Inv(a)), n))
      vb == Sub2(QV(b.v), Scale(QMul(j, Inv(b)), n))
      wa == QAdd(QI(a.w), QMul(QMul(j, xa), InvI(a)))
      wb == QSub(QI(b.w), QMul(QMul(j, xb), InvI(b)))
  IN [ct |-> ct, n |-> n, e |-> e, vn |-> vn, closing |-> QLe(QI(0), vn), j |-> j, K |-> K, va |-> va, vb |-> vb, wa |-> wa, wb |-> wb, ra |-> ra, rb |-> rb,
      \* change of translational energy, as a product of two numbers
      ea |-> <<j, QAdd(Dot(QV(a.v), n), QMul(Q(1, 2), QMul(j, Inv(a))))>>,
      eb |-> <<j, QSub(QMul(Q(1, 2), QMul(j, Inv(b))), Dot(QV(b.v), n))>>]

----------------------------------------------------------------------------
(* laws *)
Momentum(a, b, r) == (~a.inv /\ ~b.inv) =>
   /\ QAdd(QMul(QI(a.m), QSub(r.va[1], QI(a.v[1]))), QMul(QI(b.m), QSub(r.vb[1], QI(b.v[1])))) = QI(0)
   /\ QAdd(QMul(QI(a.m), QSub(r.va[2], QI(a.v[2]))), QMul(QI(b.m), QSub(r.vb[2], QI(b.v[2])))) = QI(0)
\* about the impact point
AngularMomentum(a, r, va, wa, ra) == ~a.inv => QMul(QI(a.iz), QSub(wa, QI(a.w))) = QMul(QI(a.m), Crs(ra, Sub2(va, QV(a.v))))
Restitution(a, b, r) ==
   Dot(Sub2(PointVel(r.va, r.wa, r.ra), PointVel(r.vb, r.wb, r.rb)), r.n) = QNeg(QMul(r.e, r.vn))
Frictionless(a, r, va) == Crs(Sub2(va, QV(a.v)), r.n) = QI(0)
PushedApart(a, b, r) == r.closing => QLe(Dot(Sub2(r.va, QV(a.v)), r.n), QI(0)) /\ QLe(QI(0), Dot(Sub2(r.vb, QV(b.v)), r.n))
\* total kinetic energy changes by j * (vn + j K / 2)
NoEnergyGain(r) == r.closing => QLe(r.j, QI(0)) /\ QLe(QI(0), QAdd(r.vn, QMul(Q(1, 2), QMul(r.j, r.K))))
\* looking at the impact from the other side gives the same
Symmetric(a, b, r) == (Contact(b.box, a.box).ok) =>
   LET s == Resolve(b, a) IN s.va = r.vb /\ s.vb = r.va /\ s.wa = r.wb /\ s.wb = r.wa /\ s.closing = r.closing
=============================================================================
