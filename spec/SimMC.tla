-------------------------------- MODULE SimMC --------------------------------
(***************************************************************************)
(* Sim closed with a one-dimensional world with integer positions: bodies  *)
(* of width 2*H that bounce elastically off each other and off walls.      *)
(* Everything is exact, so every complete behaviour is written out (EMIT)   *)
(* and replayed through the real Simulator with stub models and agents.     *)
(***************************************************************************)
EXTENDS Sim, Json, CSV, IOUtils, SequencesExt, Functions

CONSTANTS Family
H == 3
Out == IOEnv.OUT

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x

(* --------------------------- configurations ---------------------------- *)
P1s == {"A"}   P2s == {"A", "B"}   P3s == {"A", "B", "C"}
Names == <<"A", "B", "C">>
St(x, v) == [x |-> x, v |-> v, col |-> FALSE]
Base == [players |-> {}, missions |-> {}, dt |-> 1, dtc |-> 1, tmax |-> 3, tcol |-> 0,
         start |-> <<>>, script |-> <<>>, kind |-> <<>>, goal |-> <<>>, wall |-> <<>>]
Fun(S, f(_)) == [p \in S |-> f(p)]

\* cadence, clock and log: no contact
FamSched ==
  { [Base EXCEPT !.players = P2s, !.dt = dt, !.dtc = dtc, !.tmax = tm,
       !.start = ("A" :> St(0, 0)) @@ ("B" :> St(100, 0)),
       !.script = ("A" :> sa) @@ ("B" :> <<-1>>),
       !.kind = ("A" :> "script") @@ ("B" :> kb)] :
     dt \in {1, 2, 3}, dtc \in {1, 2, 3, 4, 5, 7}, tm \in {0, 1, 2, 5, 9},
     sa \in {<<1, -1, 0, 1>>, <<0, 1, 1, -1, -1>>}, kb \in {"script", "chase"} }
\* missions: fulfilled at different moments, by place or by time
Goal(g, tg) == [x |-> g, t |-> tg]
FamGoal ==
  { [Base EXCEPT !.players = P2s, !.dt = dt, !.dtc = dtc, !.tmax = 6, !.missions = ms,
       !.start = ("A" :> St(0, 0)) @@ ("B" :> St(20, 0)),
       !.script = ("A" :> sa) @@ ("B" :> sb),
       !.kind = ("A" :> "script") @@ ("B" :> kb),
       !.goal = ("A" :> Goal(ga, ta)) @@ ("B" :> Goal(22, 0))] :
     dt \in {1, 2}, dtc \in {1, 3}, ms \in SUBSET P2s,
     sa \in {<<1>>, <<1, 0, 0, 1>>}, sb \in {<<1>>, <<0, 0, 1>>}, kb \in {"script", "chase"},
     ga \in {0, 2, 3, 99}, ta \in {0, 4, 5} }
\* contacts among players, with and without missions, windows
FamColl ==
  { [Base EXCEPT !.players = P2s, !.dt = dt, !.dtc = dtc, !.tmax = tm, !.tcol = tc, !.missions = ms,
       !.start = ("A" :> St(0, va)) @@ ("B" :> St(gap, 0)),
       !.script = ("A" :> <<va, 1>>) @@ ("B" :> <<vb>>),
       !.kind = ("A" :> "script") @@ ("B" :> "script"),
       !.goal = ("A" :> Goal(ga, 0)) @@ ("B" :> Goal(ga, 0))] :
     dt \in {1, 2}, dtc \in {1, 2}, tm \in {4, 8}, tc \in {0, 1, 3}, ms \in {{}, {"A"}},
     gap \in {5, 6, 7, 8}, va \in {0, 1}, vb \in {-1, 0, 1}, ga \in {2, 99} }
\* three players in a row
FamThree ==
  { [Base EXCEPT !.players = P3s, !.dt = 1, !.dtc = dtc, !.tmax = 8, !.tcol = tc, !.missions = ms,
       !.start = ("A" :> St(0, 0)) @@ ("B" :> St(g1, 0)) @@ ("C" :> St(g1 + g2, 0)),
       !.script = ("A" :> <<va>>) @@ ("B" :> <<vb, 0>>) @@ ("C" :> <<vc>>),
       !.kind = ("A" :> "script") @@ ("B" :> "script") @@ ("C" :> "script"),
       !.goal = ("A" :> Goal(99, 0)) @@ ("B" :> Goal(ga, 0)) @@ ("C" :> Goal(99, 0))] :
     dtc \in {1, 2}, tc \in {0, 4}, ms \in {{}, {"B"}, {"A", "B"}},
     g1 \in {7, 8}, g2 \in {7, 9}, va \in {0, 1}, vb \in {-1, 0, 1}, vc \in {-1, 0}, ga \in {10, 99} }
\* walls
FamWall ==
  { [Base EXCEPT !.players = P2s, !.dt = dt, !.dtc = dtc, !.tmax = 8, !.tcol = tc, !.missions = ms,
       !.start = ("A" :> St(0, 0)) @@ ("B" :> St(-gb, 0)), !.wall = w,
       !.script = ("A" :> <<va, 1>>) @@ ("B" :> <<vb>>),
       !.kind = ("A" :> "script") @@ ("B" :> "script"),
       !.goal = ("A" :> Goal(ga, 0)) @@ ("B" :> Goal(99, 0))] :
     dt \in {1, 2}, dtc \in {1, 2}, tc \in {0, 2, 5}, ms \in {{}, {"A"}},
     w \in {<<4>>, <<6>>, <<5, 5>>, <<4, 6>>}, gb \in {7, 9}, va \in {0, 1}, vb \in {0, 1}, ga \in {2, 99} }

Configs == CASE Family = "sched" -> FamSched [] Family = "goal" -> FamGoal
             [] Family = "coll" -> FamColl [] Family = "three" -> FamThree
             [] Family = "wall" -> FamWall

VARIABLES c, s, obsLog, deg, hist
vars == <<c, s, obsLog, deg, hist>>

(* ------------------------------- world --------------------------------- *)
WStep(st, cm) == LET v == IF st.col THEN st.v ELSE cm IN [st EXCEPT !.v = v, !.x = @ + v]
AskIdx(p) == Len(s.logC[p]) + 1
Others(p) == s.active \ {p}
ChaseTarget(p) == CHOOSE q \in Others(p) : \A r \in Others(p) : Abs(s.snap[q].x - s.snap[p].x) <= Abs(s.snap[r].x - s.snap[p].x)
Command(p) == IF c.kind[p] = "chase"
              THEN IF Others(p) = {} THEN 0 ELSE Sgn(s.snap[ChaseTarget(p)].x - s.snap[p].x)
              ELSE c.script[p][IF AskIdx(p) > Len(c.script[p]) THEN Len(c.script[p]) ELSE AskIdx(p)]
Fulfilled(p, st, t) == p \in c.missions /\ st.x >= c.goal[p].x /\ t >= c.goal[p].t

(* collision resolution in the fixed order: walls first, then the pairs     *)
ActiveSeq(q) == SelectSeq(Names, LAMBDA p : p \in q.active)
WallContact(st, X) == st.x + H > X
PairContact(a, b) == Abs(a.x - b.x) < 2 * H     \* bodies that merely touch are not in contact
ResolveWall(q, p, X) ==       \* a wall to the right at X; equal restitution, infinite mass
  LET st == q.cur[p] IN
  IF WallContact(st, X) /\ st.v >= 0
  THEN SetVelEffect(c, RepEffect(c, q, q.t, {p, "Env"}), p, [st EXCEPT !.v = -st.v, !.col = TRUE])
  ELSE q
ResolvePair(q, a, b) ==
  LET sa == q.cur[a]  sb == q.cur[b]  n == Sgn(sb.x - sa.x) IN
  IF PairContact(sa, sb) /\ (sa.v - sb.v) * n >= 0
  THEN SetVelEffect(c, SetVelEffect(c, RepEffect(c, q, q.t, {a, b}),
         a, [sa EXCEPT !.v = sb.v, !.col = TRUE]), b, [sb EXCEPT !.v = sa.v, !.col = TRUE])
  ELSE q
RECURSIVE WallsOf(_, _, _)
WallsOf(q, p, i) == IF i > Len(c.wall) THEN q ELSE WallsOf(ResolveWall(q, p, c.wall[i]), p, i + 1)
RECURSIVE AllWalls(_, _, _)
AllWalls(q, ps, i) == IF i > Len(ps) THEN q ELSE AllWalls(WallsOf(q, ps[i], 1), ps, i + 1)
Pairs(ps) == LET n == Len(ps) IN
  SetToSortSeq({ij \in (1..n) \X (1..n) : ij[1] < ij[2]},
               LAMBDA u, w : u[1] < w[1] \/ (u[1] = w[1] /\ u[2] < w[2]))
RECURSIVE AllPairs(_, _, _, _)
AllPairs(q, ps, prs, i) == IF i > Len(prs) THEN q ELSE AllPairs(ResolvePair(q, ps[prs[i][1]], ps[prs[i][2]]), ps, prs, i + 1)
Collide(q) == LET ps == ActiveSeq(q) IN AllPairs(AllWalls(q, ps, 1), ps, Pairs(ps), 1)
\* penetrations for which the implementation's contact geometry is ill-posed are not emitted
Degenerate(q) == \/ \E a, b \in q.active : a # b /\ Abs(q.cur[a].x - q.cur[b].x) <= H
                 \/ \E a \in q.active, i \in 1..Len(c.wall) : q.cur[a].x >= c.wall[i]

(* ------------------------------- actions ------------------------------- *)
Init == /\ c \in Configs
        /\ s = SimInit(c, c.start)
        /\ obsLog = [p \in c.players |-> <<>>]
        /\ deg = FALSE
        /\ hist = <<>>
EpisodeInit(p) == /\ AllHold(InitGuards(c, s, p)) /\ s' = InitEffect(c, s, p)
                  /\ UNCHANGED <<c, obsLog, deg, hist>>
Begin == /\ AllHold(BeginGuards(c, s)) /\ s' = BeginEffect(c, s) /\ UNCHANGED <<c, obsLog, deg, hist>>
Ask(p) == /\ s.ph = "act" /\ p \in s.active
          /\ LET obs == [q \in s.active |-> s.snap[q]] IN
             /\ AllHold(AskGuards(c, s, p, s.t, obs, s.t))
             /\ s' = AskEffect(c, s, p, s.t, Command(p), NONE)
             /\ obsLog' = [obsLog EXCEPT ![p] = Append(@, <<s.t, obs>>)]
          /\ UNCHANGED <<c, deg, hist>>
Step(p) == /\ s.ph = "act" /\ p \in s.active
           /\ AllHold(UpdGuards(c, s, p, s.t, s.cmd[p], c.dt, s.cur[p]))
           /\ LET post == WStep(s.cur[p], s.cmd[p]) IN
              s' = UpdEffect(c, s, p, s.cur[p], post, Fulfilled(p, post, s.t + c.dt))
           /\ UNCHANGED <<c, obsLog, deg, hist>>
End == /\ AllHold(EndGuards(c, s))
       /\ LET q == EndEffect(c, s) IN
          /\ s' = IF q.ph = "coll" THEN Collide(q) ELSE q
          /\ deg' = (deg \/ (q.ph = "coll" /\ (Degenerate(q) \/ Degenerate(Collide(q)))))
          /\ hist' = Append(hist, [t |-> q.t, active |-> q.active, ph |-> q.ph])
       /\ UNCHANGED <<c, obsLog>>
\* the order of players inside an instant is free
Next == End \/ Begin \/ \E p \in c.players : EpisodeInit(p) \/ Ask(p) \/ Step(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---------------------------- properties ------------------------------- *)
Times(lg) == [i \in 1..Len(lg) |-> lg[i][1]]
CeilDiv(a, b) == (a + b - 1) \div b
\* S01: requests at 0 and then every ceil(dtc/dt) steps
Cadence == \A p \in c.players : \A i \in 1..Len(s.logC[p]) :
             s.logC[p][i][1] = (i - 1) * CeilDiv(c.dtc, c.dt) * c.dt
\* S01: between requests the command in force is the last one returned
Held == \A p \in c.players : Len(s.logC[p]) > 0 => s.cmd[p] = s.logC[p][Len(s.logC[p])][2]
\* S02: whoever decides at the same instant decides on the same observation
Simultaneity == \A p, q \in c.players : \A i \in 1..Len(obsLog[p]), j \in 1..Len(obsLog[q]) :
             obsLog[p][i][1] = obsLog[q][j][1] => obsLog[p][i][2] = obsLog[q][j][2]
\* S02: the observation at t is the logged state at t (for the players logged at t)
ObservedIsLogged == \A p, q \in c.players : \A i \in 1..Len(obsLog[p]), k \in 1..Len(s.logS[q]) :
             (obsLog[p][i][1] = s.logS[q][k][1] /\ q \in DOMAIN obsLog[p][i][2]) =>
                obsLog[p][i][2][q] = s.logS[q][k][2]
\* S03: contiguous log
LogContiguous == \A p \in c.players : \A i \in 1..Len(s.logS[p]) : s.logS[p][i][1] = (i - 1) * c.dt
LogWithinHorizon == \A p \in c.players : \A i \in 1..Len(s.logS[p]) : s.logS[p][i][1] <= c.tmax + c.dt
CommandsAtLoggedStates == \A p \in c.players :
   Range(Times(s.logC[p])) \subseteq (Range(Times(s.logS[p])) \cup (IF s.ph = "act" THEN {s.t} ELSE {}))
\* S04: a player that left did fulfil its mission in its last logged state, and never earlier
FirstFulfilment == \A p \in c.players \ s.active :
   /\ p \in c.missions
   /\ LET n == Len(s.logS[p]) IN
      /\ Fulfilled(p, s.logS[p][n][2], s.logS[p][n][1])
      /\ \A i \in 2..(n - 1) : ~Fulfilled(p, s.logS[p][i][2], s.logS[p][i][1])
NeverObservedAfterLeaving == \A p \in c.players, q \in c.players \ s.active : \A i \in 1..Len(obsLog[p]) :
   q \in DOMAIN obsLog[p][i][2] => obsLog[p][i][1] < s.logS[q][Len(s.logS[q])][1]
NeverReportedAfterLeaving == \A q \in c.players \ s.active : \A i \in 1..Len(s.reps) :
   q \in s.reps[i].ps => s.reps[i].t < s.logS[q][Len(s.logS[q])][1]
\* S05: ends exactly at the first instant at which one of the reasons holds
Reason(h, fc) == \/ h.t > c.tmax \/ (fc # NoTime /\ fc < h.t /\ h.t > fc + c.tcol) \/ h.active = {}
                 \/ (c.missions # {} /\ c.missions \cap h.active = {})
EndsExactly == \A i \in 1..Len(hist) : (hist[i].ph = "done") <=> Reason(hist[i], s.firstCol)
\* S06
ReportsUnique == \A i, j \in 1..Len(s.reps) :
   (i # j /\ s.reps[i].t = s.reps[j].t /\ s.reps[i].ps = s.reps[j].ps) => "Env" \in s.reps[i].ps
FirstCollision == s.firstCol = IF s.reps = <<>> THEN NoTime ELSE s.reps[1].t
ReportsOrdered == \A i, j \in 1..Len(s.reps) : i < j => s.reps[i].t <= s.reps[j].t
CollidedCoast == \A p \in c.players : s.cur[p].col <=> \E i \in 1..Len(s.reps) : p \in s.reps[i].ps
Terminates_ == <>(s.ph = "done")

(* ------------------------------- emission ------------------------------ *)
Emit == (Out # "" /\ s.ph = "done" /\ ~deg) =>
  CSVWrite("%1$s", <<ToJson([c |-> c, logS |-> s.logS, logC |-> s.logC, obs |-> obsLog, reps |-> s.reps,
                             t |-> s.t, active |-> s.active, firstCol |-> s.firstCol])>>, Out)
=============================================================================
