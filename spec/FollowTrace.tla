----------------------------- MODULE FollowTrace -----------------------------
(***************************************************************************)
(* Lane followers in closed loop: recorded samples of a drive (S per unit):      *)
(* time t, speed v, offset lat, heading error head, progress along, gap to the    *)
(* vehicle ahead (-1: none), emergency reported so far (0/1).                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
S == 10000
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pos, bad
vars == <<tr, pos, bad>>
T == Traces[tr]
Ev == T.ev[pos]
Ab(x) == IF x < 0 THEN -x ELSE x
\* after the time to settle: on the lane, along it, at the nominal speed (unless held up)
Settled(e) == e.t >= T.settle => /\ Ab(e.lat) <= 3000 /\ Ab(e.head) <= 1000
Cruising(e) == T.kind = "free" /\ e.t >= T.settle => Ab(e.v - T.nominal) <= T.nominal \div 20
\* forward, within limits
Forward(e) == e.adv >= -200 /\ (pos > 1 => e.along >= T.ev[pos - 1].along - 3000)      \* where the lane is: not that exact
Limited(e) == e.v <= T.vmax + 100 /\ Ab(e.delta) <= T.dmax + 100
\* behind somebody slower: no contact, not faster than them in the end
Behind(e) == T.kind = "lead" => e.gap > 0 /\ (e.t >= T.settle => e.v <= T.lead + T.lead \div 4 + 2000)
\* once there was an emergency: no accelerating, standing still soon and for good
Stopping(e) == e.em = 1 /\ pos > 1 /\ T.ev[pos - 1].em = 1 => e.v <= T.ev[pos - 1].v + 30 \/ Ab(e.v) <= 1000
Stopped(e) == e.em = 1 /\ e.t >= T.emat + T.stop => e.v <= 3000
Checks(e) == {<<"K03.settles", Settled(e)>>, <<"K03.cruises", Cruising(e)>>, <<"K03.forward", Forward(e)>>, <<"K03.limits", Limited(e)>>,
              <<"K03.keeps-distance", Behind(e)>>, <<"K03.emergency-brakes", Stopping(e)>>, <<"K03.emergency-stops", Stopped(e)>>}
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ bad = {}
Step == /\ pos <= Len(T.ev)
        /\ bad' = bad \union {<<c[1], pos>> : c \in {x \in Checks(Ev) : ~x[2]}}
        /\ pos' = pos + 1 /\ UNCHANGED tr
TraceSpec == Init /\ [][Step]_vars
Report == pos > Len(T.ev) => (\A x \in bad : PrintT(<<"BAD", tr, x[1], x[2]>>)) /\ PrintT(<<"DONE", tr>>)
=============================================================================
