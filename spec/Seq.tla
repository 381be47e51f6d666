-------------------------------- MODULE Seq ---------------------------------
(***************************************************************************)
(* Sampled time sequences: s = [ts |-> <<instants>>, vs |-> <<values>>].     *)
(* Instants and values are integers here; results that divide are rationals. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Rat

UNDEF == -999
Increasing(ts) == \A i \in 1..(Len(ts) - 1) : ts[i] < ts[i + 1]
WellFormed(ts, n) == Len(ts) = n /\ Increasing(ts)
N(s) == Len(s.ts)
Start(s) == s.ts[1]
End(s) == s.ts[N(s)]
Mx(S) == CHOOSE m \in S : \A w \in S : w <= m
\* index of the last sample at or before t (0 if none)
Idx(s, t) == LET I == {i \in 1..N(s) : s.ts[i] <= t} IN IF I = {} THEN 0 ELSE Mx(I)
At(s, t) == IF \E i \in 1..N(s) : s.ts[i] = t THEN s.vs[Idx(s, t)] ELSE UNDEF
AtPrev(s, t) == IF Idx(s, t) = 0 THEN UNDEF ELSE s.vs[Idx(s, t)]
\* t is the rational tq here
QIdx(s, tq) == LET I == {i \in 1..N(s) : QLe(QI(s.ts[i]), tq)} IN IF I = {} THEN 0 ELSE Mx(I)
AtPrevQ(s, tq) == IF QIdx(s, tq) = 0 THEN UNDEF ELSE s.vs[QIdx(s, tq)]
AtQ(s, tq) == IF \E i \in 1..N(s) : QI(s.ts[i]) = tq THEN s.vs[QIdx(s, tq)] ELSE UNDEF
Interp(s, tq) ==
  IF QLe(tq, QI(Start(s))) THEN QI(s.vs[1])
  ELSE IF QLe(QI(End(s)), tq) THEN QI(s.vs[N(s)])
  ELSE LET i == QIdx(s, tq)
           w == QDiv(QSub(tq, QI(s.ts[i])), QI(s.ts[i + 1] - s.ts[i]))
       IN QAdd(QMul(QI(s.vs[i]), QSub(QI(1), w)), QMul(QI(s.vs[i + 1]), w))
Filt(s, P(_, _)) == LET RECURSIVE F(_)
                        F(i) == IF i > N(s) THEN <<>> ELSE (IF P(s.ts[i], s.vs[i]) THEN <<i>> ELSE <<>>) \o F(i + 1)
                        ix == F(1)
                    IN [ts |-> [k \in 1..Len(ix) |-> s.ts[ix[k]]], vs |-> [k \in 1..Len(ix) |-> s.vs[ix[k]]]]
Sub(s, a, b) == Filt(s, LAMBDA t, v : a <= t /\ t <= b)
Shift(s, d) == [s EXCEPT !.ts = [i \in 1..N(s) |-> s.ts[i] + d]]
MapV(s, f(_)) == [s EXCEPT !.vs = [i \in 1..N(s) |-> f(s.vs[i])]]
Pairs(s) == [i \in 1..(IF N(s) = 0 THEN 0 ELSE N(s) - 1) |->
               [t0 |-> s.ts[i], t1 |-> s.ts[i + 1], dt |-> s.ts[i + 1] - s.ts[i], v0 |-> s.vs[i], v1 |-> s.vs[i + 1]]]
\* derivative: at the middle of every interval
Diff(s) == [i \in 1..Len(Pairs(s)) |-> LET p == Pairs(s)[i] IN <<Q(p.t0 + p.t1, 2), Q(p.v1 - p.v0, p.dt)>>]
RECURSIVE Area(_, _)
Area(s, k) == IF k <= 1 THEN QI(0) ELSE QAdd(Area(s, k - 1), Q((s.vs[k] + s.vs[k - 1]) * (s.ts[k] - s.ts[k - 1]), 2))
\* running trapezoidal integral: at the end of every interval
Integ(s) == [i \in 1..Len(Pairs(s)) |-> <<QI(s.ts[i + 1]), Area(s, i + 1)>>]
RECURSIVE SumV(_, _)
SumV(s, k) == IF k = 0 THEN 0 ELSE SumV(s, k - 1) + s.vs[k]
Accum(s) == [s EXCEPT !.vs = [i \in 1..N(s) |-> SumV(s, i)]]
\* instants at which the piecewise linear signal passes from one side of h to the other (a sample at h counts as above)
Below(v, h) == v < h
Cross(s, h) == LET I == {i \in 1..Len(Pairs(s)) : Below(s.vs[i], h) # Below(s.vs[i + 1], h)}
                   RECURSIVE G(_)
                   G(i) == IF i > Len(Pairs(s)) THEN <<>>
                           ELSE (IF i \in I THEN <<QAdd(QI(s.ts[i]), QMul(Q(s.vs[i] - h, s.vs[i] - s.vs[i + 1]), QI(s.ts[i + 1] - s.ts[i])))>>
                                 ELSE <<>>) \o G(i + 1)
               IN G(1)
=============================================================================
