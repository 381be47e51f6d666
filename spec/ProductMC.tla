------------------------------- MODULE ProductMC -------------------------------
(***************************************************************************)
(* Utilities every other part relies on.                                   *)
(* (1) All combinations of the options of the players: an odometer turns through    *)
(*     them, one combination per step.  (2) Maps whose values are transformed or      *)
(*     whose keys are selected.  (3) The players that appear in collision reports.    *)
(* (4) Calls of a timed function, nested ones too: one message for each, whatever     *)
(*     way it ends.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS MaxPlayers, MaxOptions, MaxCalls
VARIABLES mode, opts, wheel, seen, calls, msgs, todo
vars == <<mode, opts, wheel, seen, calls, msgs, todo>>
Options == UNION {[1..n -> 0..2] : n \in 0..MaxOptions}           \* the same option may be there twice
Count(o) == IF o = <<>> THEN 1 ELSE LET RECURSIVE P(_) P(i) == IF i = 0 THEN 1 ELSE Len(o[i]) * P(i - 1) IN P(Len(o))
Trees == UNION {[1..n -> {"returns", "raises"}] : n \in 1..MaxCalls}
Init == \/ /\ mode = "product" /\ opts \in UNION {[1..n -> Options] : n \in 0..MaxPlayers} /\ wheel = [i \in DOMAIN opts |-> 1] /\ seen = <<>>
           /\ calls = <<>> /\ msgs = <<>> /\ todo = Count(opts)
        \/ /\ mode = "calls" /\ calls \in Trees /\ msgs = <<>> /\ opts = <<>> /\ wheel = <<>> /\ seen = <<>> /\ todo = Len(calls)
\* the last wheel turns first; when all are back at the start it is over
Turn(w) == LET last == {i \in DOMAIN w : w[i] < Len(opts[i])} IN
           IF last = {} THEN w ELSE LET m == CHOOSE i \in last : \A j \in last : j <= i IN [i \in DOMAIN w |-> IF i < m THEN w[i] ELSE IF i = m THEN w[i] + 1 ELSE 1]
Next == \/ /\ mode = "product" /\ todo > 0
           /\ seen' = Append(seen, [i \in DOMAIN opts |-> opts[i][wheel[i]]]) /\ wheel' = Turn(wheel) /\ todo' = todo - 1
           /\ UNCHANGED <<mode, opts, calls, msgs>>
        \* the calls are nested: the last one to begin ends first; an exception ends all around it up to one that catches it (returns)
        \/ /\ mode = "calls" /\ todo > 0
           /\ msgs' = Append(msgs, todo) /\ todo' = todo - 1 /\ UNCHANGED <<mode, opts, wheel, seen, calls>>
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
\* every way of choosing a position for each player comes up exactly once
Positions == {w \in [DOMAIN opts -> 1..MaxOptions] : \A i \in DOMAIN opts : w[i] <= Len(opts[i])}
Complete == (mode = "product" /\ todo = 0) =>
               /\ Len(seen) = Count(opts)
               /\ \A v \in {seen[i] : i \in DOMAIN seen} \cup {[i \in DOMAIN w |-> opts[i][w[i]]] : w \in Positions} :
                     Cardinality({k \in DOMAIN seen : seen[k] = v}) = Cardinality({w \in Positions : [i \in DOMAIN w |-> opts[i][w[i]]] = v})
NothingWithoutOptions == (mode = "product" /\ \E i \in DOMAIN opts : opts[i] = <<>>) => seen = <<>>
OneMessageEach == (mode = "calls" /\ todo = 0) => Len(msgs) = Len(calls) /\ {msgs[i] : i \in DOMAIN msgs} = DOMAIN calls
InnerFirst == \A i, j \in DOMAIN msgs : i < j => msgs[i] > msgs[j]
Double(f) == [i \in DOMAIN f |-> 2 * f[i] + 1]
Emit == todo = 0 => CSVWrite("%1$s", <<ToJson(
          IF mode = "product" THEN [mode |-> mode, opts |-> opts, all |-> seen, doubled |-> [i \in DOMAIN seen |-> Double(seen[i])],
                                    odd |-> [i \in DOMAIN seen |-> {j \in DOMAIN seen[i] : j % 2 = 1}], reported |-> UNION {DOMAIN seen[i] : i \in DOMAIN seen}]
          ELSE [mode |-> mode, calls |-> calls, msgs |-> msgs])>>, IOEnv.OUT)
=============================================================================
