-------------------------------- MODULE GraphMC -------------------------------
(***************************************************************************)
(* The graph of plans a planner grows: nodes are timed states, edges carry the *)
(* transition (finely sampled) and the commands that lead from one node to     *)
(* another.  Histories of additions; answers to the queries after each.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Len0,      \* length of the histories
          Kinds      \* number of states per instant
VARIABLES g, h
Root == <<0, 0>>
Places == {Root} \cup {<<t, k>> : t \in 1..3, k \in 0..(Kinds - 1)}
Pairs == {<<u, v>> \in Places \X Places : u[1] < v[1]}
\* g: gen of the known nodes, label of the known edges (the step at which the edge was last added)
Init == g = [gen |-> [x \in {Root} |-> 0], lab |-> <<>>] /\ h = <<>>
Known(x) == x \in DOMAIN g.gen
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
AddEdge == \E e \in Pairs :
             IF Known(e[1])
             THEN /\ g' = [gen |-> IF Known(e[2]) THEN g.gen ELSE Put(g.gen, e[2], g.gen[e[1]] + 1),
                           lab |-> Put(g.lab, e, Len(h) + 1)]
                  /\ h' = Append(h, [op |-> "edge", e |-> e, ok |-> TRUE])
             ELSE /\ UNCHANGED g
                  /\ h' = Append(h, [op |-> "edge", e |-> e, ok |-> FALSE])
\* a node of its own, with a generation given by the caller
AddNode == \E x \in Places \ DOMAIN g.gen : x[2] = 1 /\ x[1] > 1
             /\ g' = [g EXCEPT !.gen = Put(@, x, 7)]
             /\ h' = Append(h, [op |-> "node", e |-> <<x, x>>, ok |-> TRUE])
Next == Len(h) < Len0 /\ (AddEdge \/ AddNode)
Spec == Init /\ [][Next]_<<g, h>>
---------------------------------------------------------------------------
Edges == DOMAIN g.lab
Nodes == DOMAIN g.gen
RECURSIVE Paths(_, _)
Paths(u, v) == IF u = v THEN {<<u>>}
               ELSE UNION {{<<u>> \o p : p \in Paths(w, v)} : w \in {x \in Nodes : <<u, x>> \in Edges}}
Shortest(u, v) == LET P == Paths(u, v) IN {p \in P : \A q \in P : Len(p) <= Len(q)}
Labels(p) == [k \in 1..(Len(p) - 1) |-> g.lab[<<p[k], p[k + 1]>>]]
Roots == {x \in Nodes : \A e \in Edges : e[2] # x}
Leaves == {x \in Nodes : \A e \in Edges : e[1] # x}
\* laws
GenUpper == \A x \in Nodes : g.gen[x] <= 10
GenOfTree == \A x \in Nodes : g.gen[x] \in {0, 7} \/ \E e \in Edges : e[2] = x /\ g.gen[e[1]] + 1 = g.gen[x]
NoOrphans == \A e \in Edges : e[1] \in Nodes /\ e[2] \in Nodes
\* moving along a chain of connections takes their commands; a shortest chain is one of them
Chains == \A u, v \in Nodes : Shortest(u, v) \subseteq Paths(u, v) /\ (Paths(u, v) # {} => Shortest(u, v) # {})
GenStable == [][\A x \in Nodes : g'.gen[x] = g.gen[x]]_<<g, h>>
Emit == (Len(h) = Len0) => CSVWrite("%1$s", <<ToJson([h |-> h,
           gen |-> {<<x, g.gen[x]>> : x \in Nodes}, lab |-> {<<e, g.lab[e]>> : e \in Edges},
           roots |-> Roots, leaves |-> Leaves,
           all |-> {<<p, Labels(p)>> : p \in UNION {Paths(u, v) : u \in Nodes, v \in Nodes}},
           pairs |-> {<<u, v, {<<p, Labels(p)>> : p \in Shortest(u, v)}>> : u \in Nodes, v \in Nodes}])>>, IOEnv.OUT)
=============================================================================
