-------------------------------- MODULE VelMC --------------------------------
(***************************************************************************)
(* Velocity, pose and heading of a moving body as a state machine: set the    *)
(* velocity in either frame, turn, and read it back in both frames.            *)
(* Families: "free" bodies keep their body-frame velocity when their heading   *)
(* is changed, "world" bodies their world-frame velocity; a "rolling" body can *)
(* only be given a longitudinal speed (its lateral and yaw velocity follow     *)
(* from its steering angle); a "driven" body has no velocity of its own.       *)
(***************************************************************************)
EXTENDS Models, TLC, Json, CSV, IOUtils
CONSTANTS Family, MaxOps
Out == IOEnv.OUT
Vs == {<<QI(2), QI(-1)>>, <<Q(-3, 2), QI(0)>>, <<QI(0), QI(4)>>}
Ws == {QI(0), Q(-1, 2)}
Tau == Q(1, 2)   \* tan of the rolling body's steering angle (wheelbase 3, rear length 2)
VARIABLES b, w, g, a, h
vars == <<b, w, g, a, h>>
ToW(v, ang) == <<RotX(ang, v[1], v[2]), RotY(ang, v[1], v[2])>>
ToB(v, ang) == ToW(v, <<ang[1], QNeg(ang[2])>>)
Rolling(vx) == LET o == QDiv(QMul(vx, Tau), QI(3)) IN <<<<vx, QMul(o, QI(2))>>, o>>
Init == /\ a \in {1, 3} /\ h = <<>>
        /\ CASE Family = "rolling" -> b = Rolling(QI(1))[1] /\ w = Rolling(QI(1))[2]
             [] Family = "driven"  -> b = <<Zero, Zero>> /\ w = Zero
             [] OTHER -> b = <<QI(1), QI(3)>> /\ w = QI(1)
        /\ g = ToW(b, Ang[a])
Put(nb, nw) == CASE Family = "rolling" -> b' = Rolling(nb[1])[1] /\ w' = Rolling(nb[1])[2]
                 [] Family = "driven"  -> UNCHANGED <<b, w>>
                 [] OTHER -> b' = nb /\ w' = nw
SetBody(v, o) == Put(v, o) /\ g' = ToW(b', Ang[a]) /\ UNCHANGED a /\ h' = Append(h, [op |-> "body", v |-> v, w |-> o, a |-> a])
SetWorld(v, o) == Put(ToB(v, Ang[a]), o) /\ g' = ToW(b', Ang[a]) /\ UNCHANGED a /\ h' = Append(h, [op |-> "world", v |-> v, w |-> o, a |-> a])
Turn(k) == /\ a' = k /\ UNCHANGED w
           /\ IF Family = "world" THEN g' = g /\ b' = ToB(g, Ang[k]) ELSE b' = b /\ g' = ToW(b, Ang[k])
           /\ h' = Append(h, [op |-> "turn", v |-> <<Zero, Zero>>, w |-> Zero, a |-> k])
Next == Len(h) < MaxOps /\ ((\E v \in Vs, o \in Ws : SetBody(v, o) \/ SetWorld(v, o)) \/ \E k \in {2, 4} : Turn(k))
Spec == Init /\ [][Next]_vars
Sq(v) == QAdd(QMul(v[1], v[1]), QMul(v[2], v[2]))
Frames == g = ToW(b, Ang[a]) /\ b = ToB(g, Ang[a]) /\ Sq(b) = Sq(g)
ReadBack == h # <<>> /\ h[Len(h)].op # "turn" /\ Family \in {"free", "world"} =>
              w = h[Len(h)].w /\ (IF h[Len(h)].op = "body" THEN b ELSE g) = h[Len(h)].v
Emit == Len(h) = MaxOps => CSVWrite("%1$s", <<ToJson([h |-> h, b |-> b, w |-> w, g |-> g, a |-> a])>>, Out)
=============================================================================
