------------------------------ MODULE ImpactMC -------------------------------
EXTENDS Impact, Json, IOUtils, TLC, CSV
CONSTANTS Level
VARIABLES i, d
A0 == <<-6, -5, 6, 5>>
BBoxes == {<<3, 1, 9, 12>>, <<2, 2, 20, 14>>, <<-9, 2, -2, 6>>, <<-12, -9, -3, -1>>, <<4, -2, 9, 2>>, <<-3, -9, 1, -4>>, <<-8, -12, 8, -2>>, <<-2, 3, 1, 11>>,
           <<-20, -7, -5, 7>>, <<3, 2, 5, 4>>, <<-5, -4, -3, -2>>, <<-4, -1, -2, 1>>, <<2, 3, 10, 9>>, <<1, -10, 9, -2>>}
Cogs == {<<0, 0>>, <<1, -1>>}
Vels == {<<3, 0>>, <<-1, 2>>, <<0, -4>>, <<0, 0>>}
Dyn == {<<2, 3, 1, 2, Q(1, 2), Q(1, 2)>>, <<1, 2, 3, 6, QI(0), QI(1)>>, <<4, 12, 1, 1, QI(1), QI(1)>>}
Omegas == IF Level = 1 THEN {<<0, 0>>, <<1, -1>>} ELSE {<<0, 0>>, <<1, -1>>, <<-2, 1>>, <<0, 2>>}
Inputs == {x \in [bb : BBoxes, ca : Cogs, va : Vels, vb : Vels, w : Omegas, dy : Dyn, env : BOOLEAN] :
             Contact(A0, x.bb).ok /\ (x.env => x.vb = <<0, 0>> /\ x.w[2] \in {0, -1} /\ x.ca = <<1, -1>>)}
BodyA(x) == [box |-> A0, c |-> x.ca, m |-> x.dy[1], iz |-> x.dy[2], e |-> x.dy[5], v |-> x.va, w |-> x.w[1], inv |-> FALSE]
BodyB(x) == [box |-> x.bb, c |-> <<(x.bb[1] + x.bb[3]) \div 2, (x.bb[2] + x.bb[4]) \div 2>>, m |-> x.dy[3], iz |-> x.dy[4], e |-> x.dy[6],
             v |-> x.vb, w |-> IF x.env THEN 0 ELSE x.w[2], inv |-> x.env]
Init == i \in Inputs /\ d = <<>>
Next == d = <<>> /\ d' = <<Resolve(BodyA(i), BodyB(i))>> /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, d>>
Laws == d # <<>> => LET a == BodyA(i)  b == BodyB(i)  r == d[1] IN
   /\ Momentum(a, b, r) /\ AngularMomentum(a, r, r.va, r.wa, r.ra) /\ AngularMomentum(b, r, r.vb, r.wb, r.rb)
   /\ Restitution(a, b, r) /\ Frictionless(a, r, r.va) /\ Frictionless(b, r, r.vb) /\ PushedApart(a, b, r) /\ NoEnergyGain(r)
   /\ Symmetric(a, b, r)
Emit == d # <<>> => CSVWrite("%1$s", <<ToJson([a |-> BodyA(i), b |-> BodyB(i), r |-> d[1]])>>, IOEnv.OUT)
=============================================================================
