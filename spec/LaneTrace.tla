------------------------------ MODULE LaneTrace ------------------------------
(***************************************************************************)
(* Curved lanes: relations between a lane and what is answered about points    *)
(* near it, on recorded values (S units per metre / per 1).                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
S == 10000
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pos, bad
vars == <<tr, pos, bad>>
Ev == Traces[tr][pos]
Ab(x) == IF x < 0 THEN -x ELSE x
Mx(a, b) == IF a > b THEN a ELSE b
FMul(a, b) == LET qa == a \div S  ra == a % S  qb == b \div S  rb == b % S IN qa * b + ra * qb + (ra * rb) \div S
Near(a, b, tol) == Ab(a - b) <= tol
Dot(u, v) == FMul(u[1], v[1]) + FMul(u[2], v[2])
Cross(u, v) == FMul(u[1], v[2]) - FMul(u[2], v[1])
Sub(u, v) == <<u[1] - v[1], u[2] - v[2]>>
\* control points made from the borders: the centre vertex, heading along the lane (left border to the left), half the width
Control(e) == LET n == Sub(e.left, e.right)  h == <<e.c, e.s>> IN
   /\ Near(e.q[1], e.center[1], 2) /\ Near(e.q[2], e.center[2], 2)
   /\ Near(Dot(h, n), 0, 40) /\ Cross(h, n) > 0
   /\ Near(4 * FMul(e.r, e.r), Dot(n, n), 400 + Dot(n, n) \div 500)
\* a body placed at a share f of an arc, lat to the left, turned by h
Arc(e) == /\ Near(e.along, FMul(e.f, e.len), 20 + e.len \div 500)
          /\ Near(e.lat, e.got, 60)
          /\ Near(e.dh, 0, 60)
          /\ (e.beyond = 0 => e.inside = (IF Ab(e.lat) <= e.r THEN 1 ELSE 0) \/ Near(Ab(e.lat), e.r, 100))
\* the length is the sum of the lengths of the arcs between control points (e.arc, where known; never shorter than the chord)
Length(e) == LET RECURSIVE Sum(_)
                 Sum(k) == IF k = 0 THEN 0 ELSE e.seg[k] + Sum(k - 1) IN
   /\ Near(e.len, Sum(Len(e.seg)), 2 + Len(e.seg))
   /\ \A k \in 1..Len(e.seg) : LET v == Sub(e.p[k + 1], e.p[k])  c2 == Dot(v, v)  s2 == FMul(e.seg[k], e.seg[k]) IN
        /\ s2 >= c2 - 100 - c2 \div 1000 /\ s2 <= c2 + c2 \div 2 + 100
        /\ e.arc > 0 => Near(e.seg[k], e.arc, 5)
\* the answer for a point p: the foot q of the perpendicular (heading h), the progress between the control points around it;
\* no sampled centre point is closer; the lateral offset is the signed distance
Foot(e) == LET v == Sub(e.p, e.q)  dd == Dot(v, v) IN
   /\ Near(e.lat, Cross(<<e.c, e.s>>, v), 150)
   /\ \A k \in 1..Len(e.other) : LET w == Sub(e.p, e.other[k]) IN Dot(w, w) >= dd - 300 - dd \div 100
   /\ e.along >= e.lo - 300 - e.len \div 300 /\ e.along <= e.hi + 300 + e.len \div 300
\* parameter and progress are inverse to each other and rise together
Inverse(e) == /\ \A k \in 1..Len(e.b) : Near(e.b[k], e.back[k], 3)
              /\ \A k \in 1..(Len(e.b) - 1) : e.b[k] < e.b[k + 1] => e.a[k] < e.a[k + 1] + 2
\* the quick centre point: on the chord, within the sagitta of the exact one; headings close
Quick(e) == LET v == Sub(e.p, e.q) IN Dot(v, v) <= FMul(e.sag, e.sag) + 100 /\ Near(e.dh, 0, e.turn + 30)
Checks(e) == CASE e.op = "control" -> {<<"L01.control-points", Control(e)>>}
               [] e.op = "length"  -> {<<"L01.length", Length(e)>>}
               [] e.op = "inverse" -> {<<"L01.inverse", Inverse(e)>>}
               [] e.op = "quick"   -> {<<"L01.quick-center", Quick(e)>>}
               [] e.op = "arc"     -> {<<"L02.arc", Arc(e)>>}
               [] e.op = "foot"    -> {<<"L02.foot", Foot(e)>>}
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ bad = {}
Step == /\ pos <= Len(Traces[tr])
        /\ bad' = bad \union {<<c[1], pos>> : c \in {x \in Checks(Ev) : ~x[2]}}
        /\ pos' = pos + 1 /\ UNCHANGED tr
TraceSpec == Init /\ [][Step]_vars
Report == pos > Len(Traces[tr]) => (\A x \in bad : PrintT(<<"BAD", tr, x[1], x[2]>>)) /\ PrintT(<<"DONE", tr>>)
=============================================================================
