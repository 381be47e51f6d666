------------------------------- MODULE SeqMC --------------------------------
(***************************************************************************)
(* All short sequences over small integers: the theorems about the           *)
(* operators, the expected result of every operation (written out and        *)
(* compared with the implementation), and the builder as a state machine.     *)
(***************************************************************************)
EXTENDS Seq, TLC, Json, CSV, IOUtils, SequencesExt

CONSTANTS MaxT, MaxLen, Family, MaxOps
Vals == IF Family = "ops" THEN {-1, 0, 2} ELSE {0}
Out == IOEnv.OUT
SortedTs(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
TsSets == {S \in SUBSET (0..MaxT) : Cardinality(S) <= MaxLen}
AllSeqs == UNION {{[ts |-> SortedTs(S), vs |-> v] : v \in [1..Cardinality(S) -> Vals]} : S \in TsSets}
Queries == {Q(k, 2) : k \in -1..(2 * MaxT + 3)}
\* arbitrary, possibly invalid, constructor arguments
RawTs == UNION {[1..n -> 0..MaxT] : n \in 0..MaxLen}

VARIABLES x, b, h
vars == <<x, b, h>>
Init == CASE Family = "ops"   -> x \in AllSeqs /\ b = <<>> /\ h = <<>>
          [] Family = "raw"   -> x \in {[ts |-> t, n |-> n] : t \in RawTs, n \in 0..MaxLen} /\ b = <<>> /\ h = <<>>
          [] Family = "build" -> x = <<>> /\ b = [ts |-> <<>>, vs |-> <<>>] /\ h = <<>>
\* the builder: an addition is accepted iff it is later than everything added before; snapshots are values
Add(t, v) == LET ok == N(b) = 0 \/ t > End(b) IN
             /\ b' = IF ok THEN [ts |-> Append(b.ts, t), vs |-> Append(b.vs, v)] ELSE b
             /\ h' = Append(h, [op |-> "add", t |-> t, v |-> v, ok |-> ok, after |-> b'])
Snap == h' = Append(h, [op |-> "snap", t |-> 0, v |-> 0, ok |-> TRUE, after |-> b]) /\ UNCHANGED b
Next == /\ Family = "build" /\ Len(h) < MaxOps /\ UNCHANGED x
        /\ (Snap \/ \E t \in 0..MaxT : Add(t, Len(h)))
Spec == Init /\ [][Next]_vars

Ops == Family = "ops"
ThLookup == Ops => \A q \in Queries :
   /\ (AtQ(x, q) # UNDEF => AtPrevQ(x, q) = AtQ(x, q))
   /\ (AtPrevQ(x, q) = UNDEF <=> (N(x) = 0 \/ QLt(q, QI(Start(x)))))
   /\ (AtQ(x, q) # UNDEF => Interp(x, q) = QI(AtQ(x, q)))
   /\ (N(x) > 0 => LET i == QIdx(x, q) IN (i > 0 /\ i < N(x)) =>
        /\ QLe(QMin(QI(x.vs[i]), QI(x.vs[i + 1])), Interp(x, q)) /\ QLe(Interp(x, q), QMax(QI(x.vs[i]), QI(x.vs[i + 1]))))
ThSub == Ops => \A a, c \in 0..MaxT : a <= c =>
   /\ Increasing(Sub(x, a, c).ts)
   /\ \A t \in 0..MaxT : At(Sub(x, a, c), t) = IF a <= t /\ t <= c THEN At(x, t) ELSE UNDEF
   /\ \A d \in 0..MaxT : d >= a => Sub(Sub(x, a, c), a, d) = Sub(x, a, IF c < d THEN c ELSE d)
ThShift == Ops => \A d \in -2..2 : Shift(Shift(x, d), -d) = x /\ \A t \in 0..MaxT : At(Shift(x, d), t + d) = At(x, t)
ThCalc == Ops => /\ \A i \in 1..Len(Pairs(x)) : QMul(Diff(x)[i][2], QI(Pairs(x)[i].dt)) = QI(Pairs(x)[i].v1 - Pairs(x)[i].v0)
                 /\ (N(x) > 0 => Accum(x).vs[N(x)] = SumV(x, N(x)))
                 /\ \A hh \in Vals : \A i \in 1..Len(Cross(x, hh)) : Interp(x, Cross(x, hh)[i]) = QI(hh)
ThBuild == Family = "build" => Increasing(b.ts)

SetSeq(S) == SetToSortSeq(S, LAMBDA p, q : QLt(p, q))
QueriesSeq == SetSeq(Queries)
Emit == CASE Family = "ops" -> CSVWrite("%1$s", <<ToJson([
              x |-> x,
              at |-> [i \in 1..Len(QueriesSeq) |-> <<QueriesSeq[i], AtQ(x, QueriesSeq[i]), AtPrevQ(x, QueriesSeq[i]),
                                                  IF N(x) = 0 THEN UNDEF ELSE Interp(x, QueriesSeq[i])>>],
              sub |-> [a \in 1..(MaxT + 1) |-> [c \in 1..(MaxT + 1) |-> IF a <= c THEN Sub(x, a - 1, c - 1) ELSE x]],
              diff |-> Diff(x), integ |-> Integ(x), accum |-> Accum(x), pairs |-> Pairs(x),
              cross |-> [i \in 1..3 |-> Cross(x, i - 2)]])>>, Out)
          [] Family = "raw" -> CSVWrite("%1$s", <<ToJson([x |-> x, ok |-> WellFormed(x.ts, x.n)])>>, Out)
          [] Family = "build" -> Len(h) = MaxOps => CSVWrite("%1$s", <<ToJson(h)>>, Out)
=============================================================================
