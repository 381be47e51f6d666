------------------------------- MODULE FaultMC -------------------------------
(***************************************************************************)
(* Who is at fault in a collision of two players: the one(s) whose pose is    *)
(* legal in none of the lanes found at the impact point.  A pose is legal in  *)
(* a lane if it lies inside the lane and does not point against it.           *)
(* World: straight lanes as rectangles with a direction (units: 1/4 m).       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANT Step
VARIABLES i, d
Lanes == << [box |-> <<1, -9, 81, 7>>, dir |-> <<1, 0>>], [box |-> <<1, 7, 81, 23>>, dir |-> <<-1, 0>>],
            [box |-> <<33, -41, 49, 55>>, dir |-> <<0, 1>>], [box |-> <<33, -41, 49, 7>>, dir |-> <<0, -1>>],
            [box |-> <<41, -9, 81, 7>>, dir |-> <<-1, 0>>] >>
Heads == << <<3, 4>>, <<-3, 4>>, <<4, -3>>, <<-5, -12>>, <<12, -5>> >>
In(p, b) == b[1] < p[1] /\ p[1] < b[3] /\ b[2] < p[2] /\ p[2] < b[4]
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
\* positions are in 1/4 m; impacts lie half way between the two bodies
At(p) == {k \in 1..Len(Lanes) : In(p, Lanes[k].box)}
Legal(p, h, k) == In(p, Lanes[k].box) /\ Dot(Heads[h], Lanes[k].dir) > 0
Fault(p, h, imp) == \A k \in At(imp) : ~Legal(p, h, k)
Mid(x) == <<x.pa[1] + x.dd[1] \div 2, x.pa[2] + x.dd[2] \div 2>>
PB(x) == <<x.pa[1] + x.dd[1], x.pa[2] + x.dd[2]>>
Inputs == [pa : {<<u, v>> : u \in {4 * Step * k - 8 : k \in 0..(24 \div Step)}, v \in {4 * Step * k - 44 : k \in 0..(24 \div Step)}},
           dd : {<<12, 12>>, <<-12, 12>>, <<12, -12>>, <<-12, -12>>}, ha : 1..5, hb : 1..5]
\* two bodies side by side in the world: not all combinations of headings
Init == i \in {x \in Inputs : (x.ha + x.hb + x.pa[1] \div 4 + x.pa[2] \div 4) % 5 = 0} /\ d = <<>>
Next == d = <<>> /\ d' = <<Fault(i.pa, i.ha, Mid(i)), Fault(PB(i), i.hb, Mid(i)), Cardinality(At(Mid(i)))>> /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, d>>
\* off the road both are at fault; where one lane is found only players driving in it are not
Laws == d # <<>> => (d[3] = 0 => d[1] /\ d[2]) /\ (At(i.pa) = {} => d[1]) /\ (At(PB(i)) = {} => d[2])
Emit == d # <<>> => CSVWrite("%1$s", <<ToJson([x |-> i, mid |-> Mid(i), pb |-> PB(i), fa |-> d[1], fb |-> d[2], n |-> d[3]])>>, IOEnv.OUT)
=============================================================================
