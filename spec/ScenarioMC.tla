------------------------------ MODULE ScenarioMC -----------------------------
(***************************************************************************)
(* Replicas of recorded scenarios: what becomes of every obstacle (read one after *)
(* the other), and the lane a recorded vehicle is taken to follow.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
VARIABLES i, k, r
Scenes == JsonDeserialize(IOEnv.IN)
Sc == Scenes[i]
---------------------------------------------------------------------------
\* "replica": obstacles [type, move (cm between first and last position)], Sc.ego: number of the one to be called Ego or -1
Vehicles == {"car", "truck", "bus", "bicycle"}
Becomes(o) == IF o.type = "static" THEN "fixed" ELSE IF o.move < 20 THEN "parked" ELSE IF o.type \in Vehicles THEN "player" ELSE "skipped"
\* the recorded moving ones are numbered in their order
Moving(s) == SelectSeq(s, LAMBDA o : o.type # "static")
Name(n) == IF n = Sc.ego THEN "Ego" ELSE "P" \o ToString(n)
Step1 == LET o == Sc.obs[k + 1]  n == Len(Moving(SubSeq(Sc.obs, 1, k))) IN
         CASE Becomes(o) = "player" -> [r EXCEPT !.players = Append(@, <<Name(n), k + 1>>)]
           [] Becomes(o) = "parked" -> [r EXCEPT !.parked = Append(@, k + 1)]
           [] Becomes(o) = "fixed" -> [r EXCEPT !.fixed = Append(@, k + 1)]
           [] OTHER -> [r EXCEPT !.skipped = Append(@, k + 1)]
---------------------------------------------------------------------------
\* "lane": lanes through the first position [h (degrees), succ (number of successors)], psi (degrees): heading of the vehicle,
\* last: <<lane, successor>>: where it ends, successor 0: in the lane itself, lane 0: nowhere
Routes(l) == IF Sc.lanes[l].succ = 0 THEN {<<l>>} ELSE {<<l, s>> : s \in 1..Sc.lanes[l].succ}
Leads(route) == Sc.last[1] = route[1] /\ (Sc.last[2] = 0 \/ (Len(route) = 2 /\ route[2] = Sc.last[2]))
Ab(x) == IF x < 0 THEN -x ELSE x
Off(l) == Ab(((Sc.psi - Sc.lanes[l].h + 180) % 360) - 180)
\* successors can be shared: joined[l]: the lane whose successors lane l has too (0: its own)
Own(l) == IF Sc.lanes[l].joined = 0 THEN l ELSE Sc.lanes[l].joined
Good(l) == \E route \in Routes(l) : IF Sc.last[2] = 0 THEN Sc.last[1] = l ELSE Len(route) = 2 /\ route[2] = Sc.last[2] /\ Own(l) = Sc.last[1]
Better(l) == Good(l) /\ (r.lane = 0 \/ Off(l) < Off(r.lane))
Step2 == IF Better(k + 1) THEN [r EXCEPT !.lane = k + 1] ELSE r
---------------------------------------------------------------------------
Steps == IF Sc.kind = "replica" THEN Len(Sc.obs) ELSE Len(Sc.lanes)
Init == i \in 1..Len(Scenes) /\ k = 0 /\ r = IF Sc.kind = "replica" THEN [players |-> <<>>, parked |-> <<>>, fixed |-> <<>>, skipped |-> <<>>] ELSE [lane |-> 0]
Next == k < Steps /\ k' = k + 1 /\ UNCHANGED i /\ r' = IF Sc.kind = "replica" THEN Step1 ELSE Step2
Spec == Init /\ [][Next]_<<i, k, r>>
Done == k = Steps
\* laws
Nobody == Sc.kind = "replica" => Len(r.players) + Len(r.parked) + Len(r.fixed) + Len(r.skipped) = k
OneName == Sc.kind = "replica" => \A a, b \in 1..Len(r.players) : r.players[a][1] = r.players[b][1] => a = b
Aligned == Done /\ Sc.kind = "lane" => IF r.lane = 0 THEN \A l \in 1..Steps : ~Good(l) ELSE \A l \in 1..Steps : Good(l) => Off(r.lane) <= Off(l)
Emit == Done => CSVWrite("%1$s", <<ToJson([i |-> i, r |-> r])>>, IOEnv.OUT)
=============================================================================
