--------------------------------- MODULE PidMC --------------------------------
(***************************************************************************)
(* The PID controller behind speed and steering control, as a state machine:   *)
(* new reference, new measurement, request of a control at an instant.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Rat
CONSTANTS PS,        \* which set of parameters
          Len0       \* number of requests
VARIABLES s, h
\* gains, limits of the integral part, of the reference, of the output
P == CASE PS = 1 -> [p |-> QI(2), i |-> Q(1, 2), d |-> Q(1, 4), w |-> <<QI(-1), QI(1)>>, r |-> <<QI(-4), QI(4)>>, o |-> <<QI(-3), QI(3)>>]
       [] PS = 2 -> [p |-> QI(0), i |-> QI(2), d |-> QI(0), w |-> <<Q(-1, 2), QI(2)>>, r |-> <<QI(0), QI(10)>>, o |-> <<QI(-8), QI(5)>>]
       [] PS = 3 -> [p |-> Q(1, 2), i |-> QI(-1), d |-> QI(1), w |-> <<QI(-2), QI(2)>>, r |-> <<QI(-1), Q(3, 2)>>, o |-> <<QI(-100), QI(100)>>]
       \* 4: a speed controller, 5: a steering controller with the standard gains, limits of the vehicle
       [] PS = 4 -> [p |-> QI(4), i |-> Q(1, 100), d |-> Q(1, 10), w |-> <<QI(-2), QI(2)>>, r |-> <<QI(-1), QI(3)>>, o |-> <<QI(-8), QI(5)>>]
       [] PS = 5 -> [p |-> QI(4), i |-> Q(1, 10), d |-> Q(1, 5), w |-> <<Q(-1, 2), Q(1, 2)>>, r |-> <<QI(-1), QI(1)>>, o |-> <<Q(-1, 2), Q(1, 2)>>]
       [] PS = 6 -> [p |-> QI(4), i |-> Q(1, 10), d |-> Q(1, 5), w |-> <<Q(-1, 2), Q(1, 2)>>, r |-> <<Q(-5, 4), Q(5, 4)>>, o |-> <<QI(-6), QI(6)>>]
Refs == {QI(-6), QI(0), QI(1), QI(7)}
Meas == {QI(-2), QI(0), Q(5, 2)}
Waits == {QI(0), Q(1, 4), QI(1)}
Init == s = [ref |-> QI(0), meas |-> QI(0), int |-> QI(0), err |-> QI(0), asked |-> FALSE] /\ h = <<>>
Clip(q, b) == QClip(q, b[1], b[2])
\* between two requests the reference and the measurement may be renewed (or not: "none")
Request(r, m, dt0) ==
  LET ref == IF r = <<>> THEN s.ref ELSE Clip(r, P.r)
      meas == IF m = <<>> THEN s.meas ELSE m
      dt == IF s.asked THEN dt0 ELSE QI(0)
      e == QSub(ref, meas)
      int == Clip(QAdd(s.int, QMul(P.i, QMul(e, dt))), P.w)
      der == IF dt = QI(0) THEN QI(0) ELSE QDiv(QSub(e, s.err), dt)
      out == Clip(QAdd(QAdd(QMul(P.p, e), int), QMul(P.d, der)), P.o)
  IN /\ s' = [ref |-> ref, meas |-> meas, int |-> int, err |-> e, asked |-> TRUE]
     /\ h' = Append(h, [r |-> r, m |-> m, dt |-> dt0, out |-> out])
Next == Len(h) < Len0 /\ \E r \in Refs \cup {<<>>}, m \in Meas \cup {<<>>}, dt \in Waits : Request(r, m, dt)
Spec == Init /\ [][Next]_<<s, h>>
In(q, b) == QLe(b[1], q) /\ QLe(q, b[2])
Bounded == In(s.int, P.w) /\ (h # <<>> => In(h[Len(h)].out, P.o)) /\ (s.asked => In(s.ref, P.r) \/ s.ref = QI(0))
\* nothing to correct, nothing remembered: no control
Rest == h # <<>> /\ s.err = QI(0) /\ P.i = QI(0) /\ P.d = QI(0) => h[Len(h)].out = QI(0)
Emit == (Len(h) = Len0) => CSVWrite("%1$s", <<ToJson([ps |-> PS, h |-> h])>>, IOEnv.OUT)
=============================================================================
