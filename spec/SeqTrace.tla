------------------------------ MODULE SeqTrace -------------------------------
(* Operations recorded on the implementation's sequences (integer instants     *)
(* and values; results exact rationals): each result must be the operator's.   *)
EXTENDS Seq, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACE)
VARIABLES tr, pos, bad
vars == <<tr, pos, bad>>
Ev == Traces[tr][pos]
Clause(e) ==
  CASE e.op = "at"    -> IF AtQ(e.s, e.q) = UNDEF THEN e.undef ELSE ~e.undef /\ e.r = QI(AtQ(e.s, e.q))
    [] e.op = "prev"  -> IF AtPrevQ(e.s, e.q) = UNDEF THEN e.undef ELSE ~e.undef /\ e.r = QI(AtPrevQ(e.s, e.q))
    [] e.op = "interp" -> e.r = Interp(e.s, e.q)
    [] e.op = "sub"   -> e.r = Sub(e.s, e.a, e.b)
    [] e.op = "shift" -> e.r = Shift(e.s, e.a)
    [] e.op = "accum" -> e.r = Accum(e.s)
    [] e.op = "diff"  -> e.r = Diff(e.s)
    [] e.op = "integ" -> e.r = Integ(e.s)
    [] e.op = "pairs" -> e.r = Pairs(e.s)
Name(e) == CASE e.op \in {"at", "prev", "interp"} -> "Q01.lookup"
             [] e.op \in {"sub", "shift"} -> "Q02.derived"
             [] OTHER -> "Q03.calculus"
Init == tr \in 1..Len(Traces) /\ pos = 1 /\ bad = {}
Step == /\ pos <= Len(Traces[tr])
        /\ bad' = IF Clause(Ev) THEN bad ELSE bad \union {<<Name(Ev), pos>>}
        /\ pos' = pos + 1 /\ UNCHANGED tr
TraceSpec == Init /\ [][Step]_vars
Report == pos > Len(Traces[tr]) => (\A x \in bad : PrintT(<<"BAD", tr, x[1], x[2]>>)) /\ PrintT(<<"DONE", tr>>)
=============================================================================
