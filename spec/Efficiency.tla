------------------------------ MODULE Efficiency -----------------------------
(***************************************************************************)
(* Efficiency and comfort of a recorded run: distance travelled, largest jerk,   *)
(* weighted root mean square of the acceleration, time at which a lane (or one   *)
(* of the lanes before or after it) is reached.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Rat
VARIABLES i, k, acc
Scenes == JsonDeserialize(IOEnv.IN)
Sc == Scenes[i]
Sq(q) == QMul(q, q)
Zero == QI(0)
---------------------------------------------------------------------------
\* distance: legs <<length, cos, sin>>; instants do not matter
\* jerk: samples [t (ms), a (rational)]; the one of an interval counts at its end
InRange(t) == (Sc.from < 0 \/ t >= Sc.from) /\ (Sc.to < 0 \/ t <= Sc.to)
Jerk(n) == QAbs(QDiv(QSub(Sc.log[n].a, Sc.log[n - 1].a), Q(Sc.log[n].t - Sc.log[n - 1].t, 1000)))
---------------------------------------------------------------------------
\* weight of the frequency 10 k / n: third order approximation of ISO 2631 (horizontal), in 1/10000
RECURSIVE Digits(_, _, _, _)
Digits(r, d, n, out) == IF n = 0 THEN out ELSE Digits((r * 10) % d, d, n - 1, out * 10 + (r * 10) \div d)
Small(x, y) == IF y > 200000000 THEN <<x \div 16, y \div 16>> ELSE <<x, y>>
Weight(h, n) == LET num == 291000 * h * h + 12052 * h * n + 1545 * n * n
                    den == 100000 * h * h * h + 150200 * h * h * n + 51630 * h * n * n + 4761 * n * n * n
                    f == Small(n * (num \div 2), den)
                IN Digits(f[1] % f[2], f[2], 4, f[1] \div f[2])
\* a signal of n samples is a sum of harmonics: number -> amplitude (integer); the mean square of a harmonic is half the square of its amplitude,
\* of a constant and of the one that alternates at every sample the square.  In 1/10^8, times two.
MeanSquare(n, H) == LET part(h) == LET w == Weight(h.k, n) IN (IF h.k = 0 \/ 2 * h.k = n THEN 2 ELSE 1) * h.a * h.a * (w * w)
                        RECURSIVE sum(_)
                        sum(m) == IF m = 0 THEN 0 ELSE sum(m - 1) + part(H[m])
                    IN sum(Len(H))
---------------------------------------------------------------------------
\* lanes in a row, the goal lane begins at 0; x is measured along the row (which may bend where a lane ends), y to its left, h from its direction
RECURSIVE Sum(_, _, _)
Sum(s, a, b) == IF a > b THEN Zero ELSE QAdd(s[a], Sum(s, a + 1, b))
First == QNeg(Sum(Sc.lens, 1, Sc.goal - 1))
Last == Sum(Sc.lens, Sc.goal, Len(Sc.lens))
AtGoal(s) == LET over == QMax(Zero, QSub(QAbs(s.y), Sc.w))  da == QSub(s.x, Sc.at) IN
             QLe(Zero, da) /\ QLt(QAdd(Sq(da), Sq(over)), QI(1))
OnLane(s) == QLe(First, s.x) /\ QLe(s.x, Last) /\ QLt(QAbs(s.y), QMin(Sc.w, Sc.ptol)) /\ QLt(QAbs(s.h), Sc.htol)
Reached(s) == AtGoal(s) \/ OnLane(s)
---------------------------------------------------------------------------
Steps == IF Sc.kind = "walk" THEN Len(Sc.legs) ELSE IF Sc.kind = "rms" THEN 1 ELSE Len(Sc.log)
Init == i \in 1..Len(Scenes) /\ k = 0 /\ acc = CASE Sc.kind \in {"walk", "jerk"} -> Zero [] OTHER -> 0
Next == /\ k < Steps /\ k' = k + 1 /\ UNCHANGED i
        /\ acc' = CASE Sc.kind = "walk" -> QAdd(acc, Sc.legs[k + 1][1])
                    [] Sc.kind = "jerk" -> IF k > 0 /\ InRange(Sc.log[k + 1].t) THEN QMax(acc, Jerk(k + 1)) ELSE acc
                    [] Sc.kind = "rms" -> MeanSquare(Sc.n, Sc.harmonics)
                    [] Sc.kind = "lane" -> IF acc = 0 /\ Reached(Sc.log[k + 1]) THEN k + 1 ELSE acc
Spec == Init /\ [][Next]_<<i, k, acc>>
Done == k = Steps
\* laws
NonNegative == Sc.kind \in {"walk", "jerk"} => QLe(Zero, acc)
Grows == [][Sc.kind \in {"walk", "jerk"} => QLe(acc, acc')]_<<i, k, acc>>
Once == [][Sc.kind = "lane" /\ acc # 0 => acc' = acc]_<<i, k, acc>>
\* up to the five Hertz there are in these signals the weights rise, from 0.162 to 0.51
WeightsOk == Sc.kind = "rms" => \A h \in 0..(Sc.n \div 2) : Weight(h, Sc.n) \in 1620..5100 /\ (h > 0 => Weight(h, Sc.n) > Weight(h - 1, Sc.n))
Emit == Done => CSVWrite("%1$s", <<ToJson([i |-> i, acc |-> acc])>>, IOEnv.OUT)
=============================================================================
