------------------------------- MODULE BodyMC -------------------------------
(***************************************************************************)
(* Bodies of every kind built from their dimensions: outline, wheels, lamps,   *)
(* thrusters and flames in the frame of the body (x ahead, y to the left), the  *)
(* centre of mass in the origin.  A body is looked at again and again while its *)
(* steering (or nozzle, for forces f) turns: only what is steered moves.         *)
(* Lengths in centimetres (exact), forces in tenths.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV, Rat
VARIABLES i, k
Scenes == JsonDeserialize(IOEnv.IN)
S == Scenes[i]
D == S.d
Kind == S.kind
Look == S.looks[k]
---------------------------------------------------------------------------
Pt(x, y) == <<QI(x), QI(y)>>
\* the place (in the body) of a point of a part mounted at m, turned by <<cos, sin>> = <<c, s>>
At(m, c, s, p) == <<QAdd(m[1], QSub(QMul(c, p[1]), QMul(s, p[2]))), QAdd(m[2], QAdd(QMul(s, p[1]), QMul(c, p[2])))>>
Mount(m, c, s, ps) == [n \in DOMAIN ps |-> At(m, c, s, ps[n])]
Box(x0, x1, y0, y1) == <<Pt(x0, y0), Pt(x1, y0), Pt(x1, y1), Pt(x0, y1)>>
Cos == QI(1)  \* of a part that is not turned
Road == {"car", "truck", "bicycle", "motorcycle"}
Four == {"car", "truck"}
\* half width and radius of the wheels
Tyre == CASE Kind = "car" -> <<10, 30>> [] Kind = "truck" -> <<20, 40>> [] OTHER -> <<5, 30>>
\* overhang: twice the radius of a wheel behind; in front half of the distance to the axle (on two wheels: the radius)
Front == IF Kind \in Four THEN QAdd(QI(D.lf), Q(D.lf, 2)) ELSE QI(D.lf + Tyre[2])
Back == QI(-D.lr - 2 * Tyre[2])
Side == D.w_half + Tyre[1]
RoadOutline == <<<<Back, QI(-Side)>>, <<Front, QI(-Side)>>, <<Front, QI(Side)>>, <<Back, QI(Side)>>>>
\* a hull with a pointed nose
Nosed(back, shoulder) == <<Pt(-back, -D.w_half), Pt(shoulder, -D.w_half), Pt(shoulder + D.l_c, 0), Pt(shoulder, D.w_half), Pt(-back, D.w_half)>>
Straight == CASE Kind \in Road -> RoadOutline
            [] Kind = "spaceship" -> Nosed(D.l_r, D.l_f)
            [] Kind = "rocket" -> Nosed(D.l_r, D.l_f + D.l_m)
            [] OTHER -> <<>>
\* round ones: half axes of an ellipse around the centre; the spacecraft has a box behind
Axes == CASE Kind = "diffdrive" -> <<D.radius, D.radius>> [] Kind = "pedestrian" -> <<50, 75>> [] Kind = "spacecraft" -> <<D.lf, D.w_half>> [] OTHER -> <<0, 0>>
Boxed == IF Kind = "spacecraft" THEN Box(-D.lr, 0, -D.w_half, D.w_half) ELSE <<>>
---------------------------------------------------------------------------
Angle == <<<<Look.c[1], Look.c[2]>>, <<Look.s[1], Look.s[2]>>>>
\* a wheel: <<mount, steered>>
Wheels == CASE Kind \in Four -> <<<<Pt(D.lf, D.w_half), TRUE>>, <<Pt(D.lf, -D.w_half), TRUE>>, <<Pt(-D.lr, D.w_half), FALSE>>, <<Pt(-D.lr, -D.w_half), FALSE>>>>
          [] Kind \in Road \ Four -> <<<<Pt(D.lf, 0), TRUE>>, <<Pt(-D.lr, 0), FALSE>>>>
          [] Kind = "diffdrive" -> <<<<<<QI(0), Q(D.wheelbase, 2)>>, FALSE>>, <<<<QI(0), Q(-D.wheelbase, 2)>>, FALSE>>>>
          [] OTHER -> <<>>
WheelShape == IF Kind = "diffdrive" THEN LET h == Q(D.wheelradius, 3)  a == QI(D.wheelradius) IN
                  <<<<QNeg(a), QNeg(h)>>, <<a, QNeg(h)>>, <<a, h>>, <<QNeg(a), h>>>>
              ELSE Box(-Tyre[2], Tyre[2], -Tyre[1], Tyre[1])
WheelAt(n) == IF Wheels[n][2] THEN Mount(Wheels[n][1], Angle[1], Angle[2], WheelShape) ELSE Mount(Wheels[n][1], Cos, QI(0), WheelShape)
\* lamps inwards of the wheels, at both ends
Lamps == IF Kind \in Road THEN
            [front_left |-> <<Front, QI(D.w_half - Tyre[1])>>, front_right |-> <<Front, QI(Tyre[1] - D.w_half)>>,
             back_left |-> <<Back, QI(D.w_half - Tyre[1])>>, back_right |-> <<Back, QI(Tyre[1] - D.w_half)>>]
         ELSE [none |-> <<QI(0), QI(0)>>]
---------------------------------------------------------------------------
\* thrusters: <<mount, cos, sin>> of the direction in which the gas leaves
Thrusters == LET c == Angle[1]  s == Angle[2] IN
             CASE Kind = "spaceship" -> <<<<Pt(-D.l_r, 0), QNeg(c), QNeg(s)>>>>
             [] Kind = "rocket" -> <<<<<<QI(D.l_m), Q(-D.w_half, 10)>>, QNeg(s), c>>, <<<<QI(D.l_m), Q(D.w_half, 10)>>, QNeg(s), QNeg(c)>>>>
             [] OTHER -> <<>>
Nozzle == Box(0, D.l_t_half, -D.w_t_half, D.w_t_half)
\* half a metre of flame at full force
Reach(f) == QAdd(QI(D.l_t_half), Q(f * 50, D.F_max))
Flame(f) == <<Pt(D.l_t_half, -D.w_t_half), <<Reach(f), QI(0)>>, Pt(D.l_t_half, D.w_t_half)>>
Nozzles == [n \in DOMAIN Thrusters |-> Mount(Thrusters[n][1], Thrusters[n][2], Thrusters[n][3], Nozzle)]
Flames == [n \in DOMAIN Thrusters |-> Mount(Thrusters[n][1], Thrusters[n][2], Thrusters[n][3], Flame(Look.f[n]))]
\* the spacecraft has two fixed ones at the corners behind
Fixed == IF Kind = "spacecraft" THEN [n \in 1..2 |-> Mount(Pt(-D.lr, IF n = 1 THEN D.w_half ELSE -D.w_half), Cos, QI(0), Box(-50, 50, -15, 15))] ELSE <<>>
---------------------------------------------------------------------------
Width == CASE Kind = "diffdrive" -> 2 * D.radius [] Kind = "pedestrian" -> 150 [] OTHER -> 2 * D.w_half
Length == CASE Kind \in Road -> QSub(Front, Back) [] Kind = "diffdrive" -> QI(2 * D.radius)
          [] Kind = "spaceship" -> QI(D.l_r + D.l_f + D.l_c) [] Kind = "rocket" -> QI(D.l_r + D.l_m + D.l_f + D.l_c) [] OTHER -> QI(0)
Init == i \in 1..Len(Scenes) /\ k = 1
Next == k < Len(S.looks) /\ k' = k + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, k>>
---------------------------------------------------------------------------
\* laws
RangeOf(f) == {f[x] : x \in DOMAIN f}
Xs(ps) == {p[1] : p \in RangeOf(ps)}
Ys(ps) == {p[2] : p \in RangeOf(ps)}
QMaxOf(T) == CHOOSE a \in T : \A b \in T : QLe(b, a)
QMinOf(T) == CHOOSE a \in T : \A b \in T : QLe(a, b)
\* every body is symmetric about its axis, and its centre of mass lies within it
Mirror(p) == <<p[1], QNeg(p[2])>>
Symmetric == /\ {Mirror(p) : p \in RangeOf(Straight)} = RangeOf(Straight)
             /\ {Mirror(p) : p \in RangeOf(Boxed)} = RangeOf(Boxed)
             /\ {Mirror(Wheels[n][1]) : n \in DOMAIN Wheels} = {Wheels[n][1] : n \in DOMAIN Wheels}
             /\ {Mirror(Thrusters[n][1]) : n \in DOMAIN Thrusters} = {Thrusters[n][1] : n \in DOMAIN Thrusters}
Within == Straight # <<>> => QLt(QMinOf(Xs(Straight)), QI(0)) /\ QLt(QI(0), QMaxOf(Xs(Straight)))
\* it is as long as it says
Long == Straight # <<>> => QSub(QMaxOf(Xs(Straight)), QMinOf(Xs(Straight))) = Length
\* wheels that are not steered do not stick out at the sides or behind
Covered == Kind \in Road => \A n \in DOMAIN Wheels : ~Wheels[n][2] => \A p \in RangeOf(WheelAt(n)) :
              QLe(QMinOf(Xs(Straight)), p[1]) /\ QLe(p[1], QMaxOf(Xs(Straight))) /\ QLe(QAbs(p[2]), QI(Side))
\* steered about its own centre: the middle of its corners stays where it is mounted
Sum(ps) == <<QAdd(QAdd(ps[1][1], ps[2][1]), QAdd(ps[3][1], ps[4][1])), QAdd(QAdd(ps[1][2], ps[2][2]), QAdd(ps[3][2], ps[4][2]))>>
Centred == \A n \in DOMAIN Wheels : Sum(WheelAt(n)) = <<QMul(QI(4), Wheels[n][1][1]), QMul(QI(4), Wheels[n][1][2])>>
\* both front wheels point the same way: one is the other moved across
Parallel == Kind \in Four => \A m \in 1..4 : QSub(WheelAt(1)[m][2], WheelAt(2)[m][2]) = QI(2 * D.w_half) /\ WheelAt(1)[m][1] = WheelAt(2)[m][1]
\* lamps shine at the ends
AtTheEnds == Kind \in Road => \A l \in DOMAIN Lamps : Lamps[l][1] \in {Front, Back} /\ QLt(QAbs(Lamps[l][2]), QI(Side))
\* a flame begins where the nozzle ends, and the nozzles of a rocket mirror each other
Sq(p, q) == LET a == QSub(p[1], q[1])  b == QSub(p[2], q[2]) IN QAdd(QMul(a, a), QMul(b, b))
Attached == \A n \in DOMAIN Thrusters : Flames[n][1] = Nozzles[n][2] /\ Flames[n][3] = Nozzles[n][3]
Twin == Kind = "rocket" => {Mirror(p) : p \in RangeOf(Nozzles[1])} = RangeOf(Nozzles[2])
Emit == CSVWrite("%1$s", <<ToJson([i |-> i, k |-> k, straight |-> Straight, axes |-> Axes, boxed |-> Boxed, wheels |-> [n \in DOMAIN Wheels |-> WheelAt(n)],
                                   lamps |-> Lamps, nozzles |-> Nozzles, flames |-> Flames, fixed |-> Fixed, width |-> Width, length |-> Length])>>, IOEnv.OUT)
=============================================================================
