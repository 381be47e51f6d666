------------------------------- MODULE Drawing -------------------------------
(***************************************************************************)
(* What an animation of a recorded run shows: a first picture at the beginning  *)
(* and one for each frame.  States are interpolated between the samples of the    *)
(* log, commands are the latest given; lamps blink; thrusters show a flame against *)
(* the force they exert as long as there is fuel.                                *)
(* Lengths, angles, masses, forces in thousandths, times in milliseconds.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Rat
VARIABLES i, k, pic
Scenes == JsonDeserialize(IOEnv.IN)
Sc == Scenes[i]
P == Len(Sc.players)
MaxOf(S) == CHOOSE a \in S : \A b \in S : b <= a
MinOf(S) == CHOOSE a \in S : \A b \in S : a <= b
Start(p) == Sc.players[p].log[1].t
End(p) == Sc.players[p].log[Len(Sc.players[p].log)].t
Begin == MinOf({Start(p) : p \in 1..P})
Finish == MaxOf({End(p) : p \in 1..P})
\* frames: at Begin, Begin + dt, ..; the slowest is one per second
Dt == IF Sc.dt > 1000 THEN 1000 ELSE Sc.dt
Frames == (Finish - Begin) \div Dt
Time(n) == IF n = 0 THEN Begin ELSE Begin + (n - 1) * Dt
---------------------------------------------------------------------------
\* a sequence of samples at time t: the latest, or interpolated; beyond the ends the first or the last
Latest(s, t) == LET S == {n \in 1..Len(s) : s[n].t <= t} IN IF S = {} THEN 1 ELSE MaxOf(S)
Between(s, f, t) == LET n == Latest(s, t)  v(m) == s[m].s[f] IN
                    IF n = Len(s) \/ t <= s[1].t THEN QI(v(n))
                    ELSE QAdd(QI(v(n)), Q((v(n + 1) - v(n)) * (t - s[n].t), s[n + 1].t - s[n].t))
State(p, t) == LET s == Sc.players[p].log IN [f \in 1..Len(s[1].s) |-> Between(s, f, t)]
Command(p, t) == LET c == Sc.players[p].cmds IN c[Latest(c, t)]
---------------------------------------------------------------------------
\* lamps: 0.4 s on, 0.4 s off, the first period is half as long; "?" when it changes
Phase(t) == LET r == t % 400 IN IF r \in 198..202 THEN 2 ELSE ((t \div 400) + (IF r > 200 THEN 1 ELSE 0)) % 2
Lamps == {"front_left", "front_right", "back_left", "back_right"}
Blinking(cmd) == CASE cmd = "turn_left" -> {"front_left", "back_left"} [] cmd = "turn_right" -> {"front_right", "back_right"} [] cmd = "hazard" -> Lamps [] OTHER -> {}
Dark(l, cmd, acc) == IF l \in {"front_left", "front_right"} THEN (IF cmd = "headlights" THEN "yellow" ELSE "white") ELSE IF acc < 0 THEN "bright red" ELSE "red"
Lamp(l, cmd, acc, t) == IF l \in Blinking(cmd) THEN (IF Phase(t) = 2 THEN "?" ELSE IF Phase(t) = 0 THEN "orange" ELSE Dark(l, cmd, acc)) ELSE Dark(l, cmd, acc)
---------------------------------------------------------------------------
\* state: x, y, psi, and: steering (vehicles); nozzle angle, mass (rocket, spaceship)
Flames(p, t) == LET kind == Sc.players[p].kind  s == State(p, t)  c == Command(p, t) IN
                IF kind \in {"rocket", "spaceship"} /\ QLt(QI(Sc.players[p].empty), s[5]) THEN c.f ELSE <<>>
Lit(kind) == kind \in {"car", "truck", "bicycle", "dyn"}
Shown(p, t) == LET c == Command(p, t) IN
               [s |-> State(p, t), flames |-> Flames(p, t),
                lamps |-> IF Lit(Sc.players[p].kind) THEN [l \in Lamps |-> Lamp(l, c.lights, c.acc, t)] ELSE [l \in {} |-> ""],
                extra |-> IF Len(Sc.players[p].extra) = 0 \/ t < Sc.players[p].extra[1].t THEN 0 ELSE Latest(Sc.players[p].extra, t)]
QMinOf(S) == CHOOSE a \in S : \A b \in S : QLe(a, b)
QMaxOf(S) == CHOOSE a \in S : \A b \in S : QLe(b, a)
\* the view around everybody: 15 m more on each side
View(q) == [f \in 1..2 |-> <<QSub(QMinOf({q[p].s[f] : p \in 1..P}), QI(15000)), QAdd(QMaxOf({q[p].s[f] : p \in 1..P}), QI(15000))>>]
Picture(n) == [p \in 1..P |-> Shown(p, Time(n))]
Init == i \in 1..Len(Scenes) /\ k = 0 /\ pic = Picture(0)
Next == k < Frames /\ k' = k + 1 /\ pic' = Picture(k + 1) /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, k, pic>>
---------------------------------------------------------------------------
\* laws
\* nobody is seen beyond the ends of what was recorded
Inside == \A p \in 1..P : \A f \in 1..Len(pic[p].s) : LET V == {Sc.players[p].log[n].s[f] : n \in 1..Len(Sc.players[p].log)} IN
          QLe(QI(MinOf(V)), pic[p].s[f]) /\ QLe(pic[p].s[f], QI(MaxOf(V)))
FrontDark == \A p \in 1..P : Lit(Sc.players[p].kind) => pic[p].lamps["front_left"] \in {"white", "yellow", "orange", "?"} /\ pic[p].lamps["back_left"] \in {"red", "bright red", "orange", "?"}
\* the blinkers of both sides never blink for a turn
OneSide == \A p \in 1..P : Lit(Sc.players[p].kind) /\ pic[p].lamps["back_left"] = "orange" /\ pic[p].lamps["back_right"] = "orange" => Command(p, Time(k)).lights = "hazard"
\* after 0.4 s a blinker has changed, after 0.8 s it is as before
Alternates == \A t \in {Time(k)} : Phase(t) # 2 => Phase(t + 400) = 1 - Phase(t) /\ Phase(t + 800) = Phase(t)
NoFuelNoFlame == \A p \in 1..P : pic[p].flames # <<>> => Sc.players[p].kind \in {"rocket", "spaceship"}
Emit == CSVWrite("%1$s", <<ToJson([i |-> i, k |-> k, frames |-> Frames, t |-> Time(k), pic |-> pic, view |-> View(pic)])>>, IOEnv.OUT)
=============================================================================
