-------------------------------- MODULE WalkMC -------------------------------
(***************************************************************************)
(* Looking for the lane of a row that contains a pose: from the goal lane to the *)
(* first successor while the pose is after the lane, to the first predecessor    *)
(* while it is before.  Whatever the network and wherever the pose is seen from   *)
(* the lanes (beside a bend it is after a lane and before its successor), the     *)
(* search ends; in a row without bends it ends in the right lane.                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Lanes, Remember
VARIABLES succ, pred, rel, cur, seen, done
None == 0
Init == /\ succ \in [1..Lanes -> 0..Lanes] /\ pred \in [1..Lanes -> 0..Lanes]
        /\ rel \in [1..Lanes -> {"in", "before", "after"}]
        /\ cur = 1 /\ seen = {} /\ done = FALSE
Target == IF rel[cur] = "after" THEN succ[cur] ELSE pred[cur]
Next == /\ ~done /\ UNCHANGED <<succ, pred, rel>>
        /\ IF rel[cur] = "in" \/ Target = None \/ (Remember /\ Target \in seen)
           THEN done' = TRUE /\ UNCHANGED <<cur, seen>>
           ELSE cur' = Target /\ seen' = seen \cup {Target} /\ UNCHANGED done
Spec == Init /\ [][Next]_<<succ, pred, rel, cur, seen, done>> /\ WF_<<succ, pred, rel, cur, seen, done>>(Next)
Terminates == <>done
\* a straight row: 1 -> 2 -> 3 .., pose in lane n
Row == /\ \A l \in 1..Lanes : succ[l] = IF l < Lanes THEN l + 1 ELSE None
       /\ \A l \in 1..Lanes : pred[l] = l - 1
Found == done /\ Row => \A n \in 1..Lanes : (rel[n] = "in" /\ \A l \in 1..Lanes : l # n => rel[l] = IF l < n THEN "after" ELSE "before") => cur = n
=============================================================================
