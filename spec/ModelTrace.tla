----------------------------- MODULE ModelTrace ------------------------------
(***************************************************************************)
(* Relations every motion model must satisfy, checked on values recorded     *)
(* from the implementation (fixed point, S units per SI unit).               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
S == 10000
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pos, bad
vars == <<tr, pos, bad>>
Ev == Traces[tr][pos]
Ab(x) == IF x < 0 THEN -x ELSE x
Mx(a, b) == IF a > b THEN a ELSE b
Mn(a, b) == IF a < b THEN a ELSE b
\* a*b/S without leaving 32 bits (|a|, |b| up to about 4e6, product of the quotients below 2e5)
FMul(a, b) == LET qa == a \div S  ra == a % S  qb == b \div S  rb == b % S IN qa * b + ra * qb + (ra * rb) \div S
Near(a, b, tol) == Ab(a - b) <= tol

\* a limited quantity: never further outside its limits than one step can carry it, and never faster than its rate limits
StateLimits(e) == \A q \in {e.q[k] : k \in 1..Len(e.q)} :
   /\ q.post <= Mx(q.hi, q.pre) + FMul(q.rup, e.dt) + FMul(q.rup, e.dt) \div 4 + e.tol
   /\ q.post >= Mn(q.lo, q.pre) + FMul(q.rdn, e.dt) + FMul(q.rdn, e.dt) \div 4 - e.tol
   /\ (q.pre >= q.hi + e.tol => q.post <= q.pre + e.tol) /\ (q.pre <= q.lo - e.tol => q.post >= q.pre - e.tol)
\* (a step in which a limit starts to act is integrated less accurately)
RateLimits(e) ==
   LET qs == {e.q[k] : k \in 1..Len(e.q)}
       clear == \A q \in qs : Mx(q.pre, q.post) + 2 * FMul(q.rup, e.dt) < q.hi /\ Mn(q.pre, q.post) + 2 * FMul(q.rdn, e.dt) > q.lo
   IN \A q \in qs : LET up == FMul(q.rup, e.dt)  dn == FMul(q.rdn, e.dt)
                         slack == e.tol + (IF clear THEN 0 ELSE (up - dn) \div 4)
                     IN q.post - q.pre <= up + slack /\ q.post - q.pre >= dn - slack
\* the state moves by the mean of the derivatives at both ends of a short step
Integrates(e) == \A k \in 1..Len(e.pre) : Near(2 * (e.post[k] - e.pre[k]), FMul(e.r0[k] + e.r1[k], e.dt), e.tol)
\* position moves with the world-frame velocity the model reports
Same(e) == \A k \in 1..Len(e.a) : Near(e.a[k], e.b[k], e.tol)

Mirror == [veh |-> <<1, -1, -1, 1, -1>>, vdyn |-> <<1, -1, -1, 1, -1, -1, -1>>, ped |-> <<1, -1, -1, 1, -1, -1>>,
           dyn |-> <<1, -1, -1, 1, -1, -1>>, cra |-> <<1, -1, -1, 1, -1, -1>>, dif |-> <<1, -1, -1>>,
           shi |-> <<1, -1, -1, 1, -1, -1, -1, 1>>, roc |-> <<1, -1, -1, 1, -1, -1, 1, 1>>]
Mirrored(e) == \A k \in 1..Len(e.a) : Near(Mirror[e.kind][k] * e.a[k], e.b[k], e.tol)
Rot(c, s, x, y) == <<FMul(c, x) - FMul(s, y), FMul(s, x) + FMul(c, y)>>
Turned(e) == LET r == Rot(e.c, e.s, e.a[1], e.a[2]) IN
   /\ Near(r[1], e.b[1], e.tol) /\ Near(r[2], e.b[2], e.tol) /\ Near(e.a[3], e.b[3], e.tol)
   /\ IF e.kind = "roc" THEN LET q == Rot(e.c, e.s, e.a[4], e.a[5]) IN
           Near(q[1], e.b[4], e.tol) /\ Near(q[2], e.b[5], e.tol) /\ \A k \in 6..8 : Near(e.a[k], e.b[k], e.tol)
      ELSE \A k \in 3..Len(e.a) : Near(e.a[k], e.b[k], e.tol)

\* single-track vehicle on tyres: pose rates are the body velocity turned into the world; tyres oppose side slip and turn the
\* vehicle to the side it steers to; no lateral motion appears on a straight; grip is finite; the engine cannot exceed its limits
Tyres(e) == LET r == Rot(e.c, e.s, e.vx, e.vy)
                lat == e.d[5] + FMul(e.w, e.vx) IN
   /\ Near(r[1], e.d[1], e.tol) /\ Near(r[2], e.d[2], e.tol) /\ Near(e.w, e.d[3], e.tol)
   /\ (e.vy = 0 /\ e.w = 0 /\ e.delta = 0 => Near(e.d[5], 0, e.tol) /\ Near(e.d[6], 0, e.tol))
   /\ (e.w = 0 /\ e.delta = 0 /\ e.vy > S \div 10 => e.d[5] < 0)
   /\ (e.w = 0 /\ e.delta = 0 /\ e.vy < -(S \div 10) => e.d[5] > 0)
   /\ (e.vy = 0 /\ e.w = 0 /\ e.delta > S \div 50 => e.d[5] > 0 /\ e.d[6] > 0)
   /\ (e.vy = 0 /\ e.w = 0 /\ e.delta < -(S \div 50) => e.d[5] < 0 /\ e.d[6] < 0)
   /\ (e.vy = 0 /\ e.delta = 0 /\ e.w > S \div 10 => e.d[6] < 0)
   /\ Ab(lat) <= e.grip
   /\ (e.vy = 0 /\ e.w = 0 /\ e.delta = 0 => e.d[4] <= e.acc + e.tol)
\* the resistance of the air (in tenths of a newton), air of 1.25 kg/m3, area times coefficient in hundredths of m2
Drag(e) == LET f == (((1250 * e.cd) \div 100) * (e.v2 * e.v2 - e.v1 * e.v1)) \div 200 IN Near(e.force, f, f \div 30 + 20)

Checks(e) == CASE e.op = "step"   -> {<<"M01.state-limits", StateLimits(e)>>, <<"M01.rate-limits", RateLimits(e)>>}
               [] e.op = "same"   -> {<<e.clause, Same(e)>>}
               [] e.op = "integ"  -> {<<"M03.integrates", Integrates(e)>>}
               [] e.op = "mirror" -> {<<"M03.mirror", Mirrored(e)>>}
               [] e.op = "turn"   -> {<<"M03.heading-free", Turned(e)>>}
               [] e.op = "drag"   -> {<<"M03.air-drag", Drag(e)>>}
               [] e.op = "tyres"  -> {<<"M03.tyres", Tyres(e)>>}
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ bad = {}
Step == /\ pos <= Len(Traces[tr])
        /\ bad' = bad \union {<<c[1], pos>> : c \in {x \in Checks(Ev) : ~x[2]}}
        /\ pos' = pos + 1 /\ UNCHANGED tr
TraceSpec == Init /\ [][Step]_vars
Report == pos > Len(Traces[tr]) => (\A x \in bad : PrintT(<<"BAD", tr, x[1], x[2]>>)) /\ PrintT(<<"DONE", tr>>)
=============================================================================
