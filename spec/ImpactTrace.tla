---------------------------- MODULE ImpactTrace -----------------------------
(* Relations between what is reported of an impact of two real bodies (fixed point, S units per SI unit). *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
S == 10000
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pos, bad
vars == <<tr, pos, bad>>
Ev == Traces[tr][pos]
Ab(x) == IF x < 0 THEN -x ELSE x
FMul(a, b) == LET qa == a \div S  ra == a % S  qb == b \div S  rb == b % S IN qa * b + ra * qb + (ra * rb) \div S
Near(a, b, tol) == Ab(a - b) <= tol
Dot(u, v) == FMul(u[1], v[1]) + FMul(u[2], v[2])
Crs(u, v) == FMul(u[1], v[2]) - FMul(u[2], v[1])
Sub(u, v) == <<u[1] - v[1], u[2] - v[2]>>
PV(v, w, r) == <<v[1] - FMul(w, r[2]), v[2] + FMul(w, r[1])>>
MaxOf(q) == LET RECURSIVE M(_)
                M(k) == IF k > Len(q) THEN 0 ELSE IF Ab(q[k]) > M(k + 1) THEN Ab(q[k]) ELSE M(k + 1) IN M(1)
\* rounding: every factor is off by at most one unit
Tol(q) == 30 + 8 * (MaxOf(q) \div S)
Hit(e) ==
  LET da == Sub(e.va1, e.va)  db == Sub(e.vb1, e.vb)
      rel0 == Sub(PV(e.va, e.wa, e.ra), PV(e.vb, e.wb, e.rb))
      rel1 == Sub(PV(e.va1, e.wa1, e.ra), PV(e.vb1, e.wb1, e.rb))
      all == e.va \o e.vb \o e.va1 \o e.vb1 \o <<e.wa, e.wb, e.wa1, e.wb1>> \o e.ra \o e.rb
      tol == Tol(all)
  IN { <<"C01.momentum", e.env \/ (IF e.heavyA THEN \A k \in 1..2 : Near(da[k], -FMul(e.ratio, db[k]), tol)
                                   ELSE \A k \in 1..2 : Near(db[k], -FMul(e.ratio, da[k]), tol))>>,
       <<"C01.angular-momentum", Near(FMul(e.ia, e.wa1 - e.wa), Crs(e.ra, da), 3 * tol) /\ (e.env \/ Near(FMul(e.ib, e.wb1 - e.wb), Crs(e.rb, db), 3 * tol))>>,
       <<"C01.restitution", Near(Dot(rel1, e.n), -FMul(e.e, Dot(rel0, e.n)), 3 * tol)>>,
       <<"C01.closing", Dot(rel0, e.n) >= -tol>>,
       <<"C01.frictionless", Near(Crs(da, e.n), 0, tol) /\ Near(Crs(db, e.n), 0, tol)>>,
       <<"C01.pushed-apart", Dot(da, e.n) <= tol /\ Dot(db, e.n) >= -tol>>,
       <<"C01.applied", \A k \in 1..Len(e.act) : Near(e.act[k], e.rep[k], 10)>>,
       <<"C01.marked", e.marked>>,
       <<"C02.normal", Near(Dot(e.n, e.n), S, 10) /\ e.outward>>,
       <<"C02.impact-point", e.near>>,
       <<"C02.velocity-before", \A k \in 1..2 : Near(e.before[k], e.va[k], 2) /\ Near(e.beforeB[k], e.vb[k], 2)>>,
       <<"C02.velocity-before", Near(e.before[3], e.wa, 2) /\ Near(e.beforeB[3], e.wb, 2)>>,
       <<"C02.energy", (Near(2 * e.ea, Dot(e.va1, e.va1) - Dot(e.va, e.va), 4 * tol) /\ (e.env \/ Near(2 * e.eb, Dot(e.vb1, e.vb1) - Dot(e.vb, e.vb), 4 * tol)))
                         \/ Ab(e.ea) >= 1899999 \/ Ab(e.eb) >= 1899999>>,
       <<"C02.time", e.time>>, <<"C02.locations", e.locs>>, <<"C02.footprint", e.fps>>, <<"C02.fault", e.fault>>, <<"C03.fault-without-map", e.fault>> }
Checks(e) == IF e.op = "none" THEN {<<"C01.separating", e.same>>} ELSE Hit(e)
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ bad = {}
Step == /\ pos <= Len(Traces[tr])
        /\ bad' = bad \union {<<c[1], pos>> : c \in {x \in Checks(Ev) : ~x[2]}}
        /\ pos' = pos + 1 /\ UNCHANGED tr
TraceSpec == Init /\ [][Step]_vars
Report == pos > Len(Traces[tr]) => (\A x \in bad : PrintT(<<"BAD", tr, x[1], x[2]>>)) /\ PrintT(<<"DONE", tr>>)
=============================================================================
