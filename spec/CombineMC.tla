------------------------------ MODULE CombineMC ------------------------------
(***************************************************************************)
(* Summing up the reports of an accident.  A report: instant, contact (point   *)
(* and normal, as one identifier, 0 = unresolved) and per player an entry, or   *)
(* NoEntry when the collision could not be resolved.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Ts, MaxLen
VARIABLES i, d
NoEntry == [loc |-> <<>>, before |-> 0, after |-> 0, de |-> 0, fault |-> FALSE, none |-> TRUE]
\* the k-th report of the accident (everything in it is recognisable)
Entry(k, p) == [loc |-> IF (k + p) % 2 = 0 THEN <<10 * k + p>> ELSE <<10 * k + p, 10 * k + p + 5>>, before |-> 10 * k + p, after |-> 20 * k + p,
                de |-> k * k - 3 * p, fault |-> (k + p) % 3 = 0, none |-> FALSE]
Report(k, t, res) == [at |-> t, contact |-> IF res THEN k ELSE 0, pl |-> [p \in 1..2 |-> IF res THEN Entry(k, p) ELSE NoEntry]]

Combine(r, s) ==
   LET f == IF r.at <= s.at THEN r ELSE s
       g == IF r.at <= s.at THEN s ELSE r
       One(a, b) == IF b.none THEN a ELSE IF a.none THEN b
                    ELSE [a EXCEPT !.loc = a.loc \o b.loc, !.after = b.after, !.de = a.de + b.de]
   IN [f EXCEPT !.pl = [p \in 1..2 |-> One(f.pl[p], g.pl[p])]]

\* an accident: instants and whether each report was resolved
Inputs == UNION {[t : [1..n -> Ts], res : [1..n -> BOOLEAN]] : n \in 1..MaxLen}
R(x) == [k \in DOMAIN x.t |-> Report(k, x.t[k], x.res[k])]
RECURSIVE FoldL(_, _), FoldR(_, _)
FoldL(s, n) == IF n = 1 THEN s[1] ELSE Combine(FoldL(s, n - 1), s[n])
FoldR(s, n) == IF n = Len(s) THEN s[n] ELSE Combine(s[n], FoldR(s, n + 1))
Init == i \in Inputs /\ d = <<>>
Next == d = <<>> /\ d' = <<FoldL(R(i), Len(i.t)), FoldR(R(i), 1)>> /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, d>>
Done == d # <<>>
Sorted == \A a, b \in DOMAIN i.t : a <= b => i.t[a] <= i.t[b]
RECURSIVE Sum(_, _, _)
Sum(x, p, k) == IF k = 0 THEN 0 ELSE Sum(x, p, k - 1) + R(x)[k].pl[p].de
Resolved == {k \in DOMAIN i.t : i.res[k]}
Mi(S) == CHOOSE k \in S : \A j \in S : k <= j
Ma(S) == CHOOSE k \in S : \A j \in S : k >= j
\* in order of time the bracketing does not matter, and the sum says how the accident began, how it ended and what was lost
Associative == Done /\ Sorted => d[1] = d[2]
Accident == Done /\ Sorted /\ Resolved # {} => \A p \in 1..2 :
   /\ d[1].at = i.t[1] /\ d[1].pl[p].before = R(i)[Mi(Resolved)].pl[p].before /\ d[1].pl[p].after = R(i)[Ma(Resolved)].pl[p].after
   /\ d[1].pl[p].de = Sum(i, p, Len(i.t))
\* reports at different instants can come in any order
Commutes == Done /\ Len(i.t) = 2 /\ i.t[1] # i.t[2] => d[1] = Combine(R(i)[2], R(i)[1])
Emit == Done => CSVWrite("%1$s", <<ToJson([x |-> i, reports |-> R(i), left |-> d[1], right |-> d[2]])>>, IOEnv.OUT)
=============================================================================
