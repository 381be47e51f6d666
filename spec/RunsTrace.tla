----------------------------- MODULE RunsTrace ------------------------------
(* A recorded history of runs of real models: each element [cfg, digest] gives the configuration and the complete outcome  *)
(* (log, reports, clock) of a run; every run of a configuration must have the outcome it has alone.                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, seen, bad
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ bad = {} /\ seen = <<>>
Ev == Traces[tr][l]
Clauses == << <<"S07.reproducible", \A i \in 1..Len(seen) : seen[i].cfg = Ev.cfg => seen[i].digest = Ev.digest>>,
              <<"S07.run-completes", Ev.ok>> >>
Step == /\ l <= Len(Traces[tr])
        /\ bad' = bad \cup {<<Clauses[i][1], l>> : i \in {j \in 1..Len(Clauses) : ~Clauses[j][2]}}
        /\ seen' = Append(seen, Ev) /\ l' = l + 1 /\ UNCHANGED tr
TraceSpec == TInit /\ [][Step]_<<tr, l, seen, bad>>
Report == l = Len(Traces[tr]) + 1 => /\ \A b \in bad : PrintT(<<"BAD", tr, b[1], b[2]>>)
                                     /\ PrintT(<<"DONE", tr>>)
=============================================================================
