-------------------------------- MODULE TrajMC -------------------------------
(***************************************************************************)
(* Trajectories of a vehicle: timed samples of position, speed and steering.   *)
(* Merging, upsampling and the plan of commands that leads along one.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Rat
CONSTANTS Size
VARIABLES i, d
\* samples: instant t, x, y (integers), speed v and steering s in quarters
Vs == {0, 2}
Trajs(off) == {<<>>} \cup UNION {{[k \in 1..n |-> [t |-> off + tt[k], x |-> 3 * k + off, y |-> k * k, v |-> vv[k], s |-> ss[k]]] :
                 tt \in {f \in [1..n -> 0..3] : \A k \in 1..(n - 1) : f[k] < f[k + 1]}, vv \in [1..n -> Vs],
                 ss \in {f \in [1..n -> {0, -1}] : Size > 1 \/ \A k \in 2..(n - 1) : f[k] = 0}} : n \in 1..3}
Connect(a, b) == a = <<>> \/ b = <<>> \/ (a[Len(a)].v = b[1].v /\ a[Len(a)].s = b[1].s)
Joined(a, b) == IF a = <<>> THEN b ELSE a \o (IF b = <<>> THEN <<>> ELSE Tail(b))
Increasing(q) == \A k \in 1..(Len(q) - 1) : q[k].t < q[k + 1].t
Merge(a, b) == IF Connect(a, b) /\ Increasing(Joined(a, b)) THEN <<Joined(a, b)>> ELSE <<>>
\* position in time is all that counts when the connection is not asked for
Chain(a, b) == IF (a = <<>> \/ (b # <<>> /\ a[Len(a)].t = b[1].t)) /\ Increasing(Joined(a, b)) THEN <<Joined(a, b)>> ELSE <<>>
\* n more samples in every interval: instant and values as fractions with denominator n + 1
Up(a, n) == [k \in 1..((Len(a) - 1) * (n + 1) + 1) |->
               LET j == (k - 1) \div (n + 1) + 1  f == (k - 1) % (n + 1)
                   I(u, w) == <<u * (n + 1 - f) + w * f, n + 1>>
                   p == a[j]  q == IF j < Len(a) THEN a[j + 1] ELSE a[j]
               IN <<I(p.t, q.t), I(p.x, q.x), I(p.y, q.y), I(p.v, q.v), I(p.s, q.s)>>]
Plan(a) == [k \in 1..(Len(a) - 1) |-> <<a[k].t, Q(a[k + 1].v - a[k].v, a[k + 1].t - a[k].t), Q(a[k + 1].s - a[k].s, a[k + 1].t - a[k].t)>>]
Inputs == {x \in [a : Trajs(0), b : Trajs(0) \cup Trajs(2) \cup Trajs(3), n : 0..3] :
             (Size > 1 \/ (Len(x.a) + Len(x.b) + (IF x.a = <<>> THEN 0 ELSE x.a[1].t + x.a[Len(x.a)].v) + (IF x.b = <<>> THEN 0 ELSE x.b[1].t - x.b[Len(x.b)].s)) % 4 = x.n)
             /\ (Size > 1 \/ ((Len(x.b) < 3 \/ (x.b[2].v = 0 /\ x.b[3].t = x.b[2].t + 1)) /\ (Len(x.a) < 3 \/ (x.a[2].v = 2 /\ x.a[1].s = 0)) /\ (x.a = <<>> \/ x.b = <<>> \/ x.b[1].t <= x.a[Len(x.a)].t + 2)))}
Init == i \in Inputs /\ d = <<>>
Next == d = <<>> /\ d' = <<Merge(i.a, i.b), Chain(i.a, i.b)>> /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, d>>
Done == d # <<>>
\* laws
MergeKeeps == Done /\ d[1] # <<>> => /\ i.a # <<>> => SubSeq(d[1][1], 1, Len(i.a)) = i.a
                                     /\ i.b # <<>> => d[1][1][Len(d[1][1])] = (IF Len(i.b) = 1 /\ i.a # <<>> THEN i.a[Len(i.a)] ELSE i.b[Len(i.b)])
UpKeeps == Done /\ i.a # <<>> => LET u == Up(i.a, i.n) IN \A k \in 1..Len(i.a) : u[(k - 1) * (i.n + 1) + 1][1][1] = i.a[k].t * (i.n + 1)
\* following the plan from the first sample reaches the last
RECURSIVE Reach(_, _)
Reach(a, k) == IF k = 1 THEN QI(a[1].v) ELSE QAdd(Reach(a, k - 1), QMul(Plan(a)[k - 1][2], QI(a[k].t - a[k - 1].t)))
PlanLeads == Done /\ i.a # <<>> => Reach(i.a, Len(i.a)) = QI(i.a[Len(i.a)].v)
Emit == Done => CSVWrite("%1$s", <<ToJson([a |-> i.a, b |-> i.b, n |-> i.n, merge |-> d[1], chain |-> d[2],
                  up |-> IF i.a = <<>> THEN <<>> ELSE Up(i.a, i.n), plan |-> IF i.a = <<>> THEN <<>> ELSE Plan(i.a)])>>, IOEnv.OUT)
=============================================================================
