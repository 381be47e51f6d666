-------------------------------- MODULE PrimMC -------------------------------
(***************************************************************************)
(* Motion primitives: trajectories between a grid of start speeds/steerings    *)
(* (or a given state) and a grid of end speeds/steerings, those for which the  *)
(* constant commands needed are allowed.  Sampled commands: one trajectory per *)
(* pair of commands of a grid that must lie within the limits.                 *)
(* Speeds etc. are integers in units of 1/4; instants in units of dt.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Rat
CONSTANTS Size
VARIABLES i, d
\* a grid: lower, upper end and number of points; the points as fractions
Point(gr, k) == IF gr.n = 1 THEN QI(gr.lo) ELSE QAdd(QI(gr.lo), Q((gr.hi - gr.lo) * (k - 1), gr.n - 1))
Points(gr) == {Point(gr, k) : k \in 1..gr.n}
Gr(lo, hi, n) == [lo |-> lo, hi |-> hi, n |-> n]
VGrids == {Gr(0, 8, 3), Gr(-4, 4, 5), Gr(2, 8, 2), Gr(4, 4, 1), Gr(0, 0, 1)} \cup (IF Size > 1 THEN {Gr(0, 16, 9), Gr(-2, 10, 4)} ELSE {})
SGrids == {Gr(-2, 2, 3), Gr(0, 4, 2), Gr(0, 0, 1)} \cup (IF Size > 1 THEN {Gr(-4, 4, 5)} ELSE {})
Limits == {[alo |-> -8, ahi |-> 4, dd |-> 4], [alo |-> -4, ahi |-> 8, dd |-> 2], [alo |-> -16, ahi |-> 16, dd |-> 8]}
Primitives == [kind : {"primitive"}, vg : VGrids, sg : SGrids, lim : Limits, dt : {<<1, 4>>, <<1, 2>>, <<1, 1>>, <<1, 16>>}, steps : IF Size > 1 THEN 1..4 ELSE {1, 2, 4},
               x0 : {<<>>, <<3, 1>>, <<-4, 0>>, <<6, -2>>}]
Horizon(x) == QMul(x.dt, QI(x.steps))
Within(lo, q, hi) == QLe(QI(lo), q) /\ QLe(q, QI(hi))
Feasible(x) ==
  {q \in {[v0 |-> v0, s0 |-> s0, v1 |-> v1, s1 |-> s1,
           acc |-> QDiv(QSub(v1, v0), Horizon(x)), dd |-> QDiv(QSub(s1, s0), Horizon(x))] :
            v0 \in (IF x.x0 = <<>> THEN Points(x.vg) ELSE {QI(x.x0[1])}), s0 \in (IF x.x0 = <<>> THEN Points(x.sg) ELSE {QI(x.x0[2])}),
            v1 \in Points(x.vg), s1 \in Points(x.sg)} :
     Within(x.lim.alo, q.acc, x.lim.ahi) /\ Within(-x.lim.dd, q.dd, x.lim.dd)}
AGrids == {Gr(-8, 4, 4), Gr(-4, 4, 3), Gr(0, 8, 2), Gr(-9, 0, 2), Gr(0, 17, 3), Gr(3, 3, 1), Gr(-16, 16, 5)}
RGrids == {Gr(-2, 2, 3), Gr(-4, 4, 5), Gr(0, 3, 2), Gr(-5, 1, 2), Gr(0, 0, 1)}
Samplers == [kind : {"sampler"}, vg : AGrids, sg : RGrids, lim : Limits, dt : {<<1, 4>>, <<1, 1>>, <<3, 1024>>}, steps : {1}, x0 : {<<3, 1>>, <<-4, 0>>}]
Allowed(x) == x.lim.alo <= x.vg.lo /\ x.vg.hi <= x.lim.ahi /\ -x.lim.dd <= x.sg.lo /\ x.sg.hi <= x.lim.dd
Sampled(x) == {[acc |-> a, dd |-> r] : a \in Points(x.vg), r \in Points(x.sg)}
\* grids taken from the vehicle: speeds up to the limits, steering up to the greatest angle; commands: up to their limits
Vehicles == [kind : {"vehicle"}, lim : Limits, vlo : {-4, 0}, vhi : {8, 20}, dmax : {2, 3}, nv : {1, 2, 3, 5}, ns : {1, 2, 3}]
Inputs == Primitives \cup Samplers \cup Vehicles
Init == i \in Inputs /\ d = <<>>
Out(x) == CASE x.kind = "primitive" -> <<[ok |-> TRUE, all |-> Feasible(x)]>>
            [] x.kind = "sampler" -> <<IF Allowed(x) THEN [ok |-> TRUE, all |-> Sampled(x)] ELSE [ok |-> FALSE, all |-> {}]>>
            [] x.kind = "vehicle" -> <<[ok |-> TRUE, v |-> Points(Gr(x.vlo, x.vhi, x.nv)), s |-> Points(Gr(-x.dmax, x.dmax, x.ns)),
                                       a |-> Points(Gr(x.lim.alo, x.lim.ahi, x.nv)), r |-> Points(Gr(-x.lim.dd, x.lim.dd, x.ns))]>>
Next == d = <<>> /\ d' = Out(i) /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, d>>
Done == d # <<>>
\* staying as one is, where the grid allows it, is always possible
Idle == Done /\ i.kind = "primitive" /\ i.x0 = <<>> /\ i.lim.alo <= 0 => \A v \in Points(i.vg), s \in Points(i.sg) : \E q \in d[1].all : q.v0 = v /\ q.v1 = v /\ q.s0 = s /\ q.s1 = s
\* what a grid from the vehicle gives is allowed
OwnGridAllowed == Done /\ i.kind = "vehicle" => \A q \in d[1].a : Within(i.lim.alo, q, i.lim.ahi)
Emit == Done => CSVWrite("%1$s", <<ToJson([i |-> i, d |-> d[1]])>>, IOEnv.OUT)
=============================================================================
