------------------------------- MODULE RoadMC --------------------------------
(***************************************************************************)
(* Road boundaries: a network of straight lanes on a grid, built lane after lane. *)
(* Around the road there is a wall along every edge between road and outside,     *)
(* except the gates: ends of lanes nothing leads to or from.  Around an island     *)
(* (outside that is enclosed by road) there is always a wall.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
VARIABLES i, k, road
\* a network: lanes [x, y, n, d] from cell <<x, y>>, n cells in direction d; succ: pairs <<a, b>>: lane b follows lane a
Nets == JsonDeserialize(IOEnv.IN)
Net == Nets[i]
Dir(d) == CASE d = "e" -> <<1, 0>> [] d = "n" -> <<0, 1>> [] d = "w" -> <<-1, 0>> [] d = "s" -> <<0, -1>>
Back(d) == CASE d = "e" -> "w" [] d = "n" -> "s" [] d = "w" -> "e" [] d = "s" -> "n"
At(l, j) == <<l.x + Dir(l.d)[1] * j, l.y + Dir(l.d)[2] * j>>
Cells(l) == {At(l, j) : j \in 0..(l.n - 1)}
Step(c, d) == <<c[1] + Dir(d)[1], c[2] + Dir(d)[2]>>
Init == i \in 1..Len(Nets) /\ k = 0 /\ road = {}
Next == k < Len(Net.lanes) /\ k' = k + 1 /\ road' = road \cup Cells(Net.lanes[k + 1]) /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, k, road>>
Done == k = Len(Net.lanes)
Field == {<<x, y>> : x \in -1..Net.size, y \in -1..Net.size}
Free == Field \ road
RECURSIVE Flood(_)
Flood(S) == LET T == S \cup {c \in Free : \E d \in {"e", "n", "w", "s"} : Step(c, d) \in S} IN IF T = S THEN S ELSE Flood(T)
Outside == Flood({<<-1, -1>>})
\* an edge: <<cell of the road, direction>>
Edges == {e \in road \X {"e", "n", "w", "s"} : Step(e[1], e[2]) \notin road}
Gates == {<<At(Net.lanes[a], Net.lanes[a].n - 1), Net.lanes[a].d>> : a \in {a \in 1..Len(Net.lanes) : \A p \in 1..Len(Net.succ) : Net.succ[p][1] # a}}
         \cup {<<At(Net.lanes[b], 0), Back(Net.lanes[b].d)>> : b \in {b \in 1..Len(Net.lanes) : \A p \in 1..Len(Net.succ) : Net.succ[p][2] # b}}
Wall(e) == Step(e[1], e[2]) \notin Outside \/ e \notin Gates
Walls == {e \in Edges : Wall(e)}
Open == (road \X {"e", "n", "w", "s"}) \ Walls
\* laws
\* whoever leaves the road without crossing a wall goes through a gate
Closed == Done => \A e \in Edges : e \in Walls \/ e \in Gates
\* nobody leaves the network but through gates: roundabouts are closed
NoGate == Done /\ (Gates \cap Edges = {}) => Walls = Edges
\* every row and column of road has a wall or a gate at both ends
Ends == Done => \A c \in road : \A d \in {"e", "n", "w", "s"} : \E e \in Edges : e[2] = d
Emit == Done => CSVWrite("%1$s", <<ToJson([i |-> i, walls |-> Walls, open |-> Open])>>, IOEnv.OUT)
=============================================================================
