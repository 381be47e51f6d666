-------------------------------- MODULE AgentMC ------------------------------
(***************************************************************************)
(* The lane follower as a composition: a chooser of speed (speed reference,     *)
(* emergency), a chooser of steering, and two PID controllers limited by the     *)
(* vehicle.  An emergency is never forgotten: from then on it brakes to a stop.   *)
(* Policies and plans: the other two agents.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Rat
CONSTANTS Len0
VARIABLES s, h
Clip(q, b) == QClip(q, b[1], b[2])
Speed == [p |-> QI(4), i |-> Q(1, 100), d |-> Q(1, 10), w |-> <<QI(-2), QI(2)>>, r |-> <<QI(-1), QI(12)>>, o |-> <<QI(-8), QI(5)>>]
Steer == [p |-> QI(4), i |-> Q(1, 10), d |-> Q(1, 5), w |-> <<Q(-1, 2), Q(1, 2)>>, r |-> <<QI(-1), QI(1)>>, o |-> <<Q(-1, 2), Q(1, 2)>>]
Fresh == [int |-> QI(0), err |-> QI(0), asked |-> FALSE]
Pid(P, c, ref, meas, dt0) ==
  LET e == QSub(Clip(ref, P.r), meas)
      dt == IF c.asked THEN dt0 ELSE QI(0)
      int == Clip(QAdd(c.int, QMul(P.i, QMul(e, dt))), P.w)
      der == IF dt = QI(0) THEN QI(0) ELSE QDiv(QSub(e, c.err), dt)
  IN [out |-> Clip(QAdd(QAdd(QMul(P.p, e), int), QMul(P.d, der)), P.o), st |-> [int |-> int, err |-> e, asked |-> TRUE]]
Init == s = [latch |-> FALSE, acc |-> Fresh, st |-> Fresh] /\ h = <<>>
\* one request: the choosers propose, the body moves at v with steering delta, dt after the last request
Ask(ref, em, dref, v, delta, dt) ==
  LET latch == s.latch \/ em
      used == IF latch THEN QI(0) ELSE ref
      a == Pid(Speed, s.acc, used, v, dt)
      b == Pid(Steer, s.st, dref, delta, dt)
  IN /\ s' = [latch |-> latch, acc |-> a.st, st |-> b.st]
     /\ h' = Append(h, [ref |-> ref, em |-> em, dref |-> dref, v |-> v, delta |-> delta, dt |-> dt, used |-> used, acc |-> a.out, dd |-> b.out])
Next == Len(h) < Len0 /\ \E ref \in {QI(0), QI(5), QI(20)}, em \in BOOLEAN, dref \in {Q(-1, 8), QI(2)}, v \in {QI(0), Q(49, 10), QI(9)}, delta \in {QI(0), Q(-1, 4)}, dt \in {Q(1, 10), Q(1, 2)} :
           Ask(ref, em, dref, v, delta, dt)
Spec == Init /\ [][Next]_<<s, h>>
Latched == [][s.latch => s'.latch]_<<s, h>>
Braking == h # <<>> /\ s.latch => h[Len(h)].used = QI(0) /\ (h[Len(h)].v = QI(9) => QLt(h[Len(h)].acc, QI(0)))
Limits == h # <<>> => LET e == h[Len(h)] IN QLe(QI(-8), e.acc) /\ QLe(e.acc, QI(5)) /\ QLe(QAbs(e.dd), Q(1, 2))
Emit == (Len(h) = Len0) => CSVWrite("%1$s", <<ToJson(h)>>, IOEnv.OUT)
=============================================================================
