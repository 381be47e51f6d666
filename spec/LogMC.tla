-------------------------------- MODULE LogMC --------------------------------
(* Reading a log back at any instant.  A player's log: the instants at which    *)
(* its state, its commands and its extra payload were recorded; the values are  *)
(* functions of the instant.  The entry of an instant interpolates the state    *)
(* and holds commands and extras; a simulation log spans its players.           *)
EXTENDS Seq, TLC, Json, CSV, IOUtils, SequencesExt
CONSTANTS MaxT
Out == IOEnv.OUT
T(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
\* state values are not linear in time
StV(t) == t * t - 3 * t
Mk(S, f(_)) == [ts |-> T(S), vs |-> [i \in 1..Cardinality(S) |-> f(T(S)[i])]]
Logs == UNION {{[s |-> Mk(a..b, StV), c |-> Mk(C \union {a}, LAMBDA t : 10 + t), e |-> Mk(E, LAMBDA t : 20 + t)] :
                  C \in SUBSET (a..b), E \in SUBSET (a..b)} : <<a, b>> \in {p \in (0..MaxT) \X (0..MaxT) : p[1] <= p[2]}}
Queries == {Q(k, 2) : k \in 0..(2 * MaxT + 2)}
VARIABLES l, m
vars == <<l, m>>
\* the second player of the log is one that is there throughout, or leaves at once, or arrives late
Init == l \in Logs /\ m \in {<<0, MaxT>>, <<0, 0>>, <<1, 2>>}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Entry(q) == [s |-> Interp(l.s, q), c |-> AtPrevQ(l.c, q), e |-> IF N(l.e) = 0 THEN UNDEF ELSE AtPrevQ(l.e, q)]
Lo(x, y) == IF x < y THEN x ELSE y
Hi(x, y) == IF x < y THEN y ELSE x
\* at a logged instant an entry is what was logged; commands and extras never come from the future; after the last instant, the last values hold
Consistent == \A q \in Queries : QLe(QI(Start(l.s)), q) =>
   /\ (\E t \in 0..MaxT : QI(t) = q /\ t <= End(l.s)) => Entry(q).s = QI(StV(q[1]))
   /\ Entry(q).c # UNDEF /\ QLe(QI(Entry(q).c - 10), q)
   /\ (Entry(q).e # UNDEF => QLe(QI(Entry(q).e - 20), q))
   /\ QLe(QI(End(l.s)), q) => Entry(q) = Entry(QI(End(l.s)))
QSeq == SetToSortSeq({q \in Queries : QLe(QI(Start(l.s)), q)}, LAMBDA a, b : QLt(a, b))
Emit == CSVWrite("%1$s", <<ToJson([l |-> l, m |-> m, first |-> Lo(Start(l.s), m[1]), last |-> Hi(End(l.s), m[2]),
                                    at |-> [i \in 1..Len(QSeq) |-> <<QSeq[i], Entry(QSeq[i])>>]])>>, Out)
=============================================================================
