------------------------------- MODULE PictureMC -------------------------------
(***************************************************************************)
(* The picture of a collision: player after player the outlines, velocities before *)
(* and after (arrows of 0.3 m per m/s at the place of the player at that time), the   *)
(* velocity of its material at the point of impact, spins in words, parts hit.      *)
(* Collisions that could not be resolved have no data on players, point, normal.     *)
(* Lengths mm, speeds mm/s, spins mrad/s, times ms; arrows in 1e-5 mm.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Rat
VARIABLES i, k, pic
Scenes == JsonDeserialize(IOEnv.IN)
Sc == Scenes[i]
P == Len(Sc.players)
\* where the player is at the time of the collision, according to its log; what has no log (the environment) is where its outline is
Latest(s, t) == LET S == {n \in 1..Len(s) : s[n].t <= t} IN IF S = {} THEN 1 ELSE CHOOSE a \in S : \A b \in S : b <= a
At(s, f, t) == LET n == Latest(s, t) IN
               IF n = Len(s) \/ t <= s[1].t THEN QI(s[n][f]) ELSE QAdd(QI(s[n][f]), Q((s[n + 1][f] - s[n][f]) * (t - s[n].t), s[n + 1].t - s[n].t))
Place(p) == IF p.log = <<>> THEN <<QI(p.centre[1]), QI(p.centre[2])>> ELSE <<At(p.log, "x", Sc.t), At(p.log, "y", Sc.t)>>
Scaled(v) == <<Q(3 * v[1], 10), Q(3 * v[2], 10)>>
AtImpact(p) == LET o == Place(p)  rx == QSub(QI(Sc.point[1]), o[1])  ry == QSub(QI(Sc.point[2]), o[2]) IN
               <<QMul(Q(3, 10), QSub(QI(p.v[1]), QMul(Q(p.w, 1000), ry))), QMul(Q(3, 10), QAdd(QI(p.v[2]), QMul(Q(p.w, 1000), rx)))>>
Player(p) == IF ~p.resolved THEN [resolved |-> FALSE]
             ELSE [resolved |-> TRUE, place |-> Place(p), before |-> Scaled(p.v), after |-> Scaled(p.va), impact |-> AtImpact(p), spins |-> <<p.w, p.wa>>, parts |-> p.parts]
Init == i \in DOMAIN Scenes /\ k = 0 /\ pic = <<>>
Next == k < P /\ k' = k + 1 /\ pic' = Append(pic, Player(Sc.players[k'])) /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, k, pic>>
---------------------------------------------------------------------------
\* its material moves at the point of impact as everywhere exactly if the body does not turn or is hit in its place
Turning == \A n \in DOMAIN pic : pic[n].resolved =>
             ((pic[n].impact = pic[n].before) <=> (Sc.players[n].w = 0 \/ Place(Sc.players[n]) = <<QI(Sc.point[1]), QI(Sc.point[2])>>))
Emit == k = P => CSVWrite("%1$s", <<ToJson([i |-> i, pic |-> pic])>>, IOEnv.OUT)
=============================================================================
