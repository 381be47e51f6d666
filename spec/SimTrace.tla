------------------------------ MODULE SimTrace ------------------------------
(***************************************************************************)
(* Validation of runs recorded from the real Simulator against Sim.        *)
(* One event per observable step (episode init of an agent, command request,*)
(* model step, velocity change, collision report, end of the run).  The     *)
(* beginning and the end of an instant are not observable: they are silent  *)
(* actions, enabled exactly when the specification says so.                 *)
(* A clause that does not hold is recorded in `bad` and validation goes on   *)
(* from the observed values, so one defect does not hide another.           *)
(***************************************************************************)
EXTENDS Sim, Json, IOUtils, SequencesExt, Functions

Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, s, fp, fs, bad     \* fp: current footprints, fs: those at the beginning of the instant
tvars == <<tr, l, s, fp, fs, bad>>

T == Traces[tr]
C == [players |-> Range(T.c.players), missions |-> Range(T.c.missions), dt |-> T.c.dt, dtc |-> T.c.dtc,
      tmax |-> T.c.tmax, tcol |-> T.c.tcol]
Ev == T.ev[l]
Note(gs) == bad' = bad \cup {<<n, l>> : n \in Failing(gs)}

TInit == /\ tr \in 1..Len(Traces) /\ l = 1 /\ bad = {}
         /\ s = SimInit([players |-> Range(Traces[tr].c.players)], Traces[tr].start)
         /\ fp = Traces[tr].startF /\ fs = Traces[tr].startF

IsEvent(k) == l <= Len(T.ev) /\ Ev.k = k /\ l' = l + 1 /\ UNCHANGED tr
StepEvent == l <= Len(T.ev) /\ Ev.k \in {"ask", "upd"}
\* every active player stepped, or an event of a player that has been stepped already
InstantOver == s.ph = "act" /\ (\/ (s.acted # {} /\ s.acted = s.active) \/ (l <= Len(T.ev) /\ Ev.k \in {"ask", "upd"} /\ Ev.p \in s.acted)
                                 \/ (l <= Len(T.ev) /\ Ev.k \in {"end", "rep", "setv"}))

(* contacts found by the harness between two instants: <<body, body, closing, closing after, closing throughout>>, closing in -1, 0 (unknown), 1 *)
OvSet(ov) == {{ov[i][1], ov[i][2]} : i \in 1..Len(ov)}
Involved(ov, p) == Cardinality({i \in 1..Len(ov) : p \in {ov[i][1], ov[i][2]}})
Clean(ov, i) == \A p \in {ov[i][1], ov[i][2]} \ {"Env"} : Involved(ov, p) = 1
ContactGuards(ov) ==
  << <<"S06.contact-without-report", \A i \in 1..Len(ov) :
         (Clean(ov, i) /\ ov[i][3] = 1) => {ov[i][1], ov[i][2]} \in Range(s.repsNow)>>,
     <<"S06.report-while-separating", \A i \in 1..Len(ov) :
         (Clean(ov, i) /\ ov[i][3] = -1) => {ov[i][1], ov[i][2]} \notin Range(s.repsNow)>>,
     \* two pieces of the environment hit at once: as long as both are approached both have to be reported
     <<"S06.contact-without-report", \A p \in Range(T.c.players) :
         LET e == {i \in 1..Len(ov) : ov[i][1] = p /\ ov[i][2] = "Env"}
         IN (Cardinality(e) = 2 /\ Involved(ov, p) = 2 /\ \A i \in e : ov[i][3] = 1 /\ ov[i][4] = 1)
            => Cardinality({j \in 1..Len(s.repsNow) : s.repsNow[j] = {p, "Env"}}) = 2>>,
     \* in a pile: approaching each other whatever happened to the others of the pile in between
     <<"S06.contact-without-report", \A i \in 1..Len(ov) :
         (ov[i][2] # "Env" /\ ov[i][5] = 1) => {ov[i][1], ov[i][2]} \in Range(s.repsNow)>>,
     <<"S06.report-without-contact", Range(s.repsNow) \subseteq OvSet(ov)>> >>

SilentEnd == /\ InstantOver
             /\ s' = EndEffect(C, s)
             /\ bad' = bad \cup {<<n, l>> : n \in Failing(EndGuards(C, s))}
             /\ UNCHANGED <<tr, l, fp, fs>>
SilentBegin == /\ StepEvent /\ ~InstantOver /\ s.ph # "act"
               /\ s' = BeginEffect(C, s)
               /\ Note((IF s.ph = "init" THEN <<>> ELSE BeginGuards(C, s)) \o (IF s.ph = "coll" /\ "ov" \in DOMAIN Ev THEN ContactGuards(Ev.ov) ELSE <<>>))
               /\ fs' = fp /\ UNCHANGED <<tr, l, fp>>

TrInit == /\ ~InstantOver /\ IsEvent("init")
          /\ Note(InitGuards(C, s, Ev.p) \o
               << <<"S08.init-seed", Ev.seed>>, <<"S08.init-own-goal", Ev.goal>>, <<"S08.init-name", Ev.name>>,
                  <<"S08.private-goal", Ev.goalCopy>>, <<"S08.private-scenario", Ev.scenCopy>>,
                  <<"S08.scenario-as-configured", Ev.scenEq>>, <<"S08.configuration-intact", Ev.intact>>,
                  <<"S08.init-model-data", Ev.model>> >>)
          /\ s' = InitEffect(C, s, Ev.p) /\ UNCHANGED <<fp, fs>>
TrAsk == /\ ~InstantOver /\ s.ph = "act" /\ IsEvent("ask")
         /\ Note(AskGuards(C, s, Ev.p, Ev.t, Ev.obs, Ev.obsT) \o
              << <<"S02.same-snapshot", \A q \in DOMAIN Ev.obsF \cap s.active : Ev.obsF[q] = fs[q]>>,
                 <<"S02.agent-gets-what-its-sensor-produced", Ev.sensed>>,
                 <<"S04.membership", Range(Ev.act) = s.active>> >>)
         /\ s' = [AskEffect(C, s, Ev.p, Ev.t, Ev.ret, Ev.extra) EXCEPT !.need = TRUE]
         /\ UNCHANGED <<fp, fs>>
TrUpd == /\ ~InstantOver /\ s.ph = "act" /\ IsEvent("upd")
         /\ Note(UpdGuards(C, s, Ev.p, Ev.t, Ev.c, Ev.dt, Ev.pre) \o
              << <<"S04.membership", Range(Ev.act) = s.active>> >>)
         /\ s' = UpdEffect(C, s, Ev.p, Ev.pre, Ev.post, Ev.ful)
         /\ fp' = [fp EXCEPT ![Ev.p] = Ev.postF] /\ UNCHANGED fs
TrRep == /\ ~InstantOver /\ IsEvent("rep")
         /\ Note(RepGuards(C, s, Ev.t, Range(Ev.ps), Ev.mult))
         /\ s' = RepEffect(C, s, Ev.t, Range(Ev.ps)) /\ UNCHANGED <<fp, fs>>
TrSetV == /\ ~InstantOver /\ IsEvent("setv")
          /\ Note(SetVelGuards(C, s, Ev.p))
          /\ s' = SetVelEffect(C, s, Ev.p, Ev.post) /\ UNCHANGED <<fp, fs>>
TrEnd == /\ ~InstantOver /\ IsEvent("end")
         /\ Note(<< <<"S05.ends-too-early", s.ph = "done">>,
                    <<"S03.clock", Ev.t = s.t>>,
                    <<"S04.membership", Range(Ev.act) = s.active>>,
                    <<"S03.log-of-every-player", Range(Ev.logged) = C.players>>,
                    <<"S03.logged-states", \A p \in C.players \cap DOMAIN Ev.logS : Ev.logS[p] = s.logS[p]>>,
                    <<"S03.logged-commands", \A p \in C.players \cap DOMAIN Ev.logC : Ev.logC[p] = s.logC[p]>>,
                    <<"S03.logged-extra", \A p \in C.players \cap DOMAIN Ev.logX : Ev.logX[p] = s.logX[p]>>,
                    <<"S03.computation-time", \A p \in C.players \cap DOMAIN Ev.spent : Ev.spent[p]>>,
                    <<"S03.logged-timing", \A p \in C.players \cap DOMAIN Ev.logI :
                           Ev.logI[p] = [i \in 1..Len(s.logC[p]) |-> s.logC[p][i][1]]>>,
                    <<"S08.configuration-intact", Ev.intact>>,
                    <<"S06.first-collision-instant", Ev.first = s.firstCol>>,
                    <<"S06.reports-kept", Ev.nrep = Len(s.reps)>> >>)
         /\ UNCHANGED <<s, fp, fs>>

TNext == SilentEnd \/ SilentBegin \/ TrInit \/ TrAsk \/ TrUpd \/ TrRep \/ TrSetV \/ TrEnd
TraceSpec == TInit /\ [][TNext]_tvars

Finished == l = Len(T.ev) + 1
Report == Finished => /\ \A b \in bad : PrintT(<<"BAD", tr, b[1], b[2]>>)
                      /\ PrintT(<<"DONE", tr>>)
=============================================================================
