--------------------------------- MODULE Sim ---------------------------------
(***************************************************************************)
(* The simulation loop of dg-commons, as a state machine over one record   *)
(* `s`, parameterised by an episode configuration `c`:                      *)
(*   c.players   set of player names        c.missions  players with a goal *)
(*   c.dt        physics step [ticks]       c.dtc   command period [ticks]  *)
(*   c.tmax      maximal time [ticks]       c.tcol  window after collision  *)
(* Model states, footprints and commands are opaque values, so the same     *)
(* operators are used                                                       *)
(*   - by SimMC, which closes them with a one-dimensional world and explores *)
(*     every configuration and player order exhaustively, and               *)
(*   - by SimTrace, which replays runs recorded from the implementation.     *)
(* Every action comes as a pair: XGuards (a sequence of <<clause, holds>>)   *)
(* and XEffect.  An action is enabled iff all its guards hold; the trace     *)
(* specification reports the names of the clauses that do not hold.          *)
(* Phases: init -> (begin -> act -> coll)* -> done                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == "NONE"
NoTime == -1

SimInit(c, start) ==
  [ ph      |-> "init",
    t       |-> 0,
    active  |-> c.players,               \* players still in the simulation
    inited  |-> {},                      \* agents told about the episode
    lastReq |-> NoTime,                  \* instant of the last command request
    need    |-> FALSE,                   \* is this instant a request instant?
    asked   |-> {},                      \* asked in this instant
    acted   |-> {},                      \* stepped in this instant
    cmd     |-> [p \in c.players |-> NONE],
    cur     |-> start,                   \* current state of every model
    snap    |-> start,                   \* states at the beginning of the instant
    ful     |-> [p \in c.players |-> FALSE],
    logS    |-> [p \in c.players |-> <<>>],
    logC    |-> [p \in c.players |-> <<>>],
    logX    |-> [p \in c.players |-> <<>>],
    reps    |-> <<>>,                    \* collision reports, [t, ps]
    repsNow |-> <<>>,                    \* those of the current instant
    firstCol|-> NoTime ]

AllHold(gs) == \A i \in 1..Len(gs) : gs[i][2]
Failing(gs) == {gs[i][1] : i \in {j \in 1..Len(gs) : ~gs[j][2]}}

NeedCmd(c, s) == s.lastReq = NoTime \/ s.t - s.lastReq >= c.dtc

(* ------------------------------ episode init --------------------------- *)
InitGuards(c, s, p) ==
  << <<"S08.init-only-before-start", s.ph = "init">>,
     <<"S08.init-once", p \notin s.inited>>,
     <<"S08.init-known-player", p \in c.players>> >>
InitEffect(c, s, p) ==
  LET in == s.inited \cup {p} IN
  [s EXCEPT !.inited = in, !.ph = IF in = c.players THEN "begin" ELSE s.ph]

(* ---------------------- beginning of an instant ------------------------ *)
BeginGuards(c, s) == << <<"S05.no-step-after-the-end", s.ph \in {"begin", "coll"}>> >>
BeginEffect(c, s) ==
  [s EXCEPT !.ph = "act", !.need = NeedCmd(c, s), !.asked = {}, !.acted = {},
            !.snap = s.cur, !.repsNow = <<>>, !.ful = [p \in c.players |-> FALSE]]

(* --------------------------- command request --------------------------- *)
(* obs: what the sensor of p was given, player -> state; obsT its time     *)
AskGuards(c, s, p, t, obs, obsT) ==
  << <<"S08.init-before-first-request", s.inited = c.players>>,
     <<"S05.no-request-after-the-end", s.ph = "act">>,
     <<"S04.finished-player-asked", p \in s.active>>,
     <<"S01.request-schedule", s.need>>,
     <<"S01.request-once-per-instant", p \notin s.asked>>,
     <<"S01.request-before-step", p \notin s.acted>>,
     <<"S03.clock", t = s.t>>,
     <<"S02.observation-time", obsT = s.t>>,
     <<"S02.observed-players", DOMAIN obs = s.active>>,
     <<"S02.same-snapshot", \A q \in DOMAIN obs \cap s.active : obs[q] = s.snap[q]>> >>
AskEffect(c, s, p, t, ret, extra) ==
  [s EXCEPT !.asked = @ \cup {p}, !.cmd[p] = ret,
            !.logC[p] = Append(@, <<t, ret>>),
            !.logX[p] = IF extra = NONE THEN @ ELSE Append(@, <<t, extra>>)]

(* ----------------------------- physics step ---------------------------- *)
UpdGuards(c, s, p, t, cm, dt, pre) ==
  << <<"S05.no-step-after-the-end", s.ph = "act">>,
     <<"S04.finished-player-stepped", p \in s.active>>,
     <<"S01.step-once-per-instant", p \notin s.acted>>,
     <<"S01.request-schedule", s.need => p \in s.asked>>,
     <<"S01.command-held", cm = s.cmd[p]>>,
     <<"S01.step-size", dt = c.dt>>,
     <<"S03.clock", t = s.t>>,
     <<"S03.state-only-changed-by-step-or-collision", pre = s.cur[p]>> >>
UpdEffect(c, s, p, pre, post, ful) ==
  [s EXCEPT !.acted = @ \cup {p}, !.cur[p] = post, !.ful[p] = ful,
            !.logS[p] = Append(@, <<s.t, pre>>)]

(* -------- end of the instant: clock, missions, termination ------------- *)
EndGuards(c, s) == << <<"S01.every-active-player-stepped", s.ph = "act" /\ s.acted = s.active>> >>
Finishing(c, s) == {p \in s.active \cap c.missions : s.ful[p]}
Terminates(c, s, t, act) ==
  \/ t > c.tmax
  \/ s.firstCol # NoTime /\ t > s.firstCol + c.tcol
  \/ act = {}
  \/ c.missions # {} /\ c.missions \cap act = {}
EndEffect(c, s) ==
  LET t1  == s.t + c.dt
      fin == Finishing(c, s)
      act == s.active \ fin
  IN [s EXCEPT !.t = t1, !.active = act,
               !.lastReq = IF s.need THEN s.t ELSE @,
               !.logS = [p \in c.players |-> IF p \in fin THEN Append(s.logS[p], <<t1, s.cur[p]>>) ELSE s.logS[p]],
               !.repsNow = <<>>,
               !.ph = IF Terminates(c, s, t1, act) THEN "done" ELSE "coll"]

(* ------------------------------ collisions ----------------------------- *)
(* ps: the set of bodies in the report ("Env" for the environment);        *)
(* `multi`: may the same set be reported several times in an instant?       *)
(* (a player touching several obstacles at once)                            *)
RepGuards(c, s, t, ps, mult) ==
  << <<"S06.no-report-after-the-end", s.ph # "done">>,
     <<"S06.reports-after-the-step", s.ph = "coll">>,
     <<"S06.report-time", t = s.t>>,
     <<"S06.reported-players-active", (ps \ {"Env"}) \subseteq s.active>>,
     <<"S06.two-bodies", Cardinality(ps) = 2>>,
     <<"S06.reported-once", Cardinality({i \in 1..Len(s.repsNow) : s.repsNow[i] = ps}) < mult>> >>
RepEffect(c, s, t, ps) ==
  [s EXCEPT !.reps = Append(@, [t |-> t, ps |-> ps]), !.repsNow = Append(@, ps),
            !.firstCol = IF s.firstCol = NoTime THEN t ELSE @]
(* a collision changes the velocity of a model *)
SetVelGuards(c, s, p) == << <<"S06.velocity-changed-outside-collision-phase", s.ph = "coll">>,
                            <<"S04.finished-player-collided", p \in s.active>> >>
SetVelEffect(c, s, p, st) == [s EXCEPT !.cur[p] = st]

Done(s) == s.ph = "done"
=============================================================================
