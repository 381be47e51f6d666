----------------------------- MODULE ControlTrace -----------------------------
(* What a collision changes in the motion of a body, from recorded derivatives of the same state and command without and with a   *)
(* collision before: bodies sliding freely afterwards are slowed down in proportion to their velocity (all components by the same *)
(* rate), nothing else changes.                                                                                                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
S == 10000
VARIABLES tr, pos, bad
Ev == Traces[tr][pos]
Ab(x) == IF x < 0 THEN -x ELSE x
\* dv = - mu v  with one mu > 0: cross products vanish and signs are opposite
Cross(a, b, c, d) == Ab((a \div 20) * (d \div 20) - (b \div 20) * (c \div 20)) <= 30 * (Ab(a \div 20) + Ab(b \div 20) + Ab(c \div 20) + Ab(d \div 20)) + 1000
Friction(e) == \A j \in 1..Len(e.v) :
   /\ Ab(e.v[j]) > 100 => e.v[j] * (IF e.dv[j] > 0 THEN 1 ELSE IF e.dv[j] < 0 THEN -1 ELSE 0) < 0
   /\ Ab(e.v[j]) <= 1 => Ab(e.dv[j]) <= 10
   /\ \A k \in 1..Len(e.v) : Cross(e.v[j], e.v[k], e.dv[j], e.dv[k])
Checks(e) == {<<"C05.friction", Friction(e)>>, <<"C05.nothing-else", e.same /\ \A k \in 1..Len(e.rest) : Ab(e.rest[k]) <= 1>>}
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ bad = {}
Step == /\ pos <= Len(Traces[tr])
        /\ bad' = bad \union {<<c[1], pos>> : c \in {x \in Checks(Ev) : ~x[2]}}
        /\ pos' = pos + 1 /\ UNCHANGED tr
TraceSpec == Init /\ [][Step]_<<tr, pos, bad>>
Report == pos > Len(Traces[tr]) => (\A x \in bad : PrintT(<<"BAD", tr, x[1], x[2]>>)) /\ PrintT(<<"DONE", tr>>)
=============================================================================
