-------------------------------- MODULE Runs --------------------------------
(***************************************************************************)
(* Histories of runs over several Simulator objects: runs one after the     *)
(* other on the same or on different simulators, and runs started while     *)
(* another one is in progress (by an agent that simulates ahead).           *)
(* A run is a process with its own clock, command memory and log; what a    *)
(* simulator remembers between two runs is nothing.  `carry` is the memory   *)
(* an implementation could leak: the specification never reads it.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, CSV, IOUtils

CONSTANTS NSims, NCfgs, NRuns, MaxNest
Sims == 1..NSims
Cfgs == 1..NCfgs
Out == IOEnv.OUT
VARIABLES stack,   \* runs in progress, innermost last: [sim, cfg, id]
          hist,    \* operations so far
          results, \* run id -> what it reported: the configuration that determines it
          n        \* runs started
vars == <<stack, hist, results, n>>

Solo(cfg) == cfg   \* the result of a run is a function of its configuration alone
Busy == {stack[i].sim : i \in 1..Len(stack)}
Init == stack = <<>> /\ hist = <<>> /\ results = <<>> /\ n = 0
Start(m, k) == /\ n < NRuns /\ Len(stack) < MaxNest /\ m \notin Busy
               /\ n' = n + 1
               /\ stack' = Append(stack, [sim |-> m, cfg |-> k, id |-> n + 1])
               /\ hist' = Append(hist, [op |-> "start", sim |-> m, cfg |-> k, id |-> n + 1])
               /\ UNCHANGED results
Finish == /\ stack # <<>>
          /\ LET r == stack[Len(stack)] IN
             /\ results' = Append(results, [id |-> r.id, cfg |-> r.cfg, res |-> Solo(r.cfg)])
             /\ hist' = Append(hist, [op |-> "finish", sim |-> r.sim, cfg |-> r.cfg, id |-> r.id])
          /\ stack' = SubSeq(stack, 1, Len(stack) - 1)
          /\ UNCHANGED n
Next == Finish \/ \E m \in Sims, k \in Cfgs : Start(m, k)
Spec == Init /\ [][Next]_vars
\* two runs of the same configuration report the same, wherever and whenever they ran
Reproducible == \A i, j \in 1..Len(results) : results[i].cfg = results[j].cfg => results[i].res = results[j].res
WellNested == Len(results) + Len(stack) = n
Emit == (stack = <<>> /\ n = NRuns) => CSVWrite("%1$s", <<ToJson(hist)>>, Out)
=============================================================================
