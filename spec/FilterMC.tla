------------------------------- MODULE FilterMC ------------------------------
(***************************************************************************)
(* Stacks of observation filters: delays and ghosts around the identity.      *)
(* At instant number k the world is snapshot k.  A filter delivers a snapshot  *)
(* (its number), the players it shows and the time written on it.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Size
VARIABLES i, d
P == {"A", "B", "C"}
Clocks == << <<0, 2, 4, 6, 8, 10>>, <<0, 3, 6, 9>>, <<1, 2, 4, 5, 7, 11>>, [k \in 1..260 |-> k + k \div 60] >>
\* squared distances are compared: players move on a line (A) or on a grid
Pos(p, k) == CASE p = "A" -> <<3 * k, 0>> [] p = "B" -> <<12, 4 * (k % 3)>> [] p = "C" -> <<0, 9 - 4 * k>>
Alive(k) == CASE k >= 5 -> {"A", "C"} [] OTHER -> P
Layers == [k : {"delay"}, l : {0, 2, 3, 4, 7}, who : {"A"}] \cup [k : {"ghost"}, l : {0, 3, 4, 9, 13}, who : {"A", "B", "C"}]
Stacks == {<<x>> : x \in Layers} \cup
          {<<x, y>> : x \in Layers, y \in {z \in Layers : z.k = "delay" => z.l \in {2, 3}}}
\* latencies of many instants, over a long time
Long == [clk : {4}, st : {<<x>> : x \in [k : {"delay"}, l : {40, 97, 201}, who : {"A"}]} \cup {<<[k |-> "delay", l |-> 150, who |-> "A"], [k |-> "ghost", l |-> 13, who |-> "B"]>>}, pov : {"A", "C"}]
Inputs == Long \cup [clk : 1..3, st : IF Size > 1 THEN Stacks \cup {<<x, y, z>> : x \in Layers, y \in {w \in Layers : w.l \in {3, 5}}, z \in {w \in Layers : w.l \in {2, 9}}} ELSE Stacks, pov : P]
T(x, k) == Clocks[x.clk][k]
D2(p, q, k) == LET a == Pos(p, k)  b == Pos(q, k) IN (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
RECURSIVE Res(_, _, _)
\* what the innermost n layers deliver at instant number k
Res(x, n, k) ==
   IF n = 0 THEN [src |-> k, time |-> T(x, k), pl |-> Alive(k)]
   ELSE LET o == Res(x, n - 1, k)  y == x.st[n] IN
        IF y.k = "ghost"
        THEN IF x.pov = y.who \/ y.who \notin o.pl \/ D2(x.pov, y.who, o.src) <= y.l * y.l THEN o ELSE [o EXCEPT !.pl = o.pl \ {y.who}]
        ELSE LET S == {j \in 1..k : Res(x, n - 1, j).time + y.l >= o.time}
                 j0 == CHOOSE j \in S : \A q \in S : j <= q
                 r == Res(x, n - 1, j0)
             IN [r EXCEPT !.time = r.time + y.l]
\* instants at which the observer is asked: all of them (it is there to the end)
Ks(x) == 1..(IF x.pov = "B" THEN 4 ELSE Len(Clocks[x.clk]))
Init == i \in Inputs /\ d = <<>>
Next == d = <<>> /\ d' = [k \in Ks(i) |-> Res(i, Len(i.st), k)] /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, d>>
Done == d # <<>>
RECURSIVE Lat(_, _)
Lat(x, n) == IF n = 0 THEN 0 ELSE Lat(x, n - 1) + (IF x.st[n].k = "delay" THEN x.st[n].l ELSE 0)
Inexact == Len(SelectSeq(i.st, LAMBDA y : y.k = "delay")) > 1
\* never lose sight of oneself, never see anyone who was not there, never news younger or older than the latency (news of the very beginning apart)
Self == Done => \A k \in DOMAIN d : i.pov \in d[k].pl
Real == Done => \A k \in DOMAIN d : d[k].pl \subseteq Alive(d[k].src) /\ d[k].src <= k
Order == Done => \A k \in DOMAIN d : k > 1 => d[k - 1].src <= d[k].src
Latency == Done /\ ~Inexact => LET L == Lat(i, Len(i.st)) IN \A k \in DOMAIN d :
   /\ T(i, k) - T(i, d[k].src) <= L
   /\ (\E j \in 1..k : T(i, j) + L = T(i, k)) => T(i, d[k].src) + L = T(i, k) /\ d[k].time = T(i, k)
   /\ (T(i, k) - L <= T(i, 1)) => d[k].src = 1
GhostGone == Done => \A n \in DOMAIN i.st : (i.st[n].k = "ghost" /\ i.st[n].who # i.pov) =>
   \A k \in DOMAIN d : i.st[n].who \in d[k].pl => D2(i.pov, i.st[n].who, d[k].src) <= i.st[n].l * i.st[n].l
Emit == Done => CSVWrite("%1$s", <<ToJson([x |-> i, clock |-> Clocks[i.clk],
          snap |-> [k \in DOMAIN Clocks[i.clk] |-> [p \in Alive(k) |-> Pos(p, k)]],
          out |-> [k \in DOMAIN d |-> [src |-> d[k].src, pl |-> d[k].pl, exact |-> T(i, d[k].src) + Lat(i, Len(i.st)) = T(i, k)]]])>>, IOEnv.OUT)
=============================================================================
