------------------------------- MODULE SolidMC ------------------------------
(***************************************************************************)
(* Solids handed to a collision checker: at which points of the plane a       *)
(* shape must be hit.  A shape is a polygon, or a line that is open or        *)
(* closed, with corners at integer points; one probe is followed side after   *)
(* side along the shape.  A polygon is hit on its border and inside (where a  *)
(* ray to the east crosses the border an odd number of times), a line on its  *)
(* sides only.  Farther than one unit from all of that nothing is hit; in     *)
(* between nothing is said.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, CSV
VARIABLES s, q, k, odd, on, near
Scenes == JsonDeserialize(IOEnv.IN)
vars == <<s, q, k, odd, on, near>>
Pts == Scenes[s].pts
N == Len(Pts)
Kind == Scenes[s].kind
Sides == IF Kind = "line" THEN N - 1 ELSE N
A(j) == Pts[j]
B(j) == Pts[(j % N) + 1]
P == Scenes[s].probes[q]
Sub(u, v) == <<u[1] - v[1], u[2] - v[2]>>
Dot(u, v) == u[1] * v[1] + u[2] * v[2]
Cross(u, v) == u[1] * v[2] - u[2] * v[1]
Between(a, b, p) == Dot(Sub(p, a), Sub(b, a)) >= 0 /\ Dot(Sub(p, b), Sub(a, b)) >= 0
OnSide(a, b, p) == Cross(Sub(b, a), Sub(p, a)) = 0 /\ Between(a, b, p)
\* within one unit of the side
Near(a, b, p) == IF Between(a, b, p) THEN LET c == Cross(Sub(b, a), Sub(p, a)) IN c * c <= Dot(Sub(b, a), Sub(b, a))
                 ELSE Dot(Sub(p, a), Sub(p, a)) <= 1 \/ Dot(Sub(p, b), Sub(p, b)) <= 1
\* the ray from p to the east crosses the side: the side passes the height of p (its lower end counts), to the east of it
Crosses(a, b, p) == (a[2] <= p[2]) # (b[2] <= p[2]) /\ (Cross(Sub(b, a), Sub(p, a)) > 0) = (b[2] > a[2]) /\ ~OnSide(a, b, p)
Init == s \in 1..Len(Scenes) /\ q \in 1..Len(Scenes[s].probes) /\ k = 0 /\ odd = FALSE /\ on = FALSE /\ near = FALSE
Next == /\ k < Sides /\ k' = k + 1 /\ UNCHANGED <<s, q>>
        /\ odd' = (odd # Crosses(A(k + 1), B(k + 1), P))
        /\ on' = (on \/ OnSide(A(k + 1), B(k + 1), P))
        /\ near' = (near \/ Near(A(k + 1), B(k + 1), P))
Spec == Init /\ [][Next]_vars
Done == k = Sides
Inside == Kind = "polygon" /\ odd
Verdict == IF on \/ Inside THEN "hit" ELSE IF near THEN "open" ELSE "free"
\* what lies on it is near it; far outside of the box of the corners nothing is inside
OnIsNear == on => near
Far == Done /\ Kind = "polygon" /\ (\A j \in 1..N : P[1] > A(j)[1] \/ \A i \in 1..N : P[2] > A(i)[2]) => ~odd
\* the ray to the west would have told the same
Mirror(u) == <<-u[1], u[2]>>
RECURSIVE West(_)
West(j) == IF j = 0 THEN FALSE ELSE West(j - 1) # Crosses(Mirror(A(j)), Mirror(B(j)), Mirror(P))
Symmetric == Done /\ Kind # "line" /\ ~on => odd = West(N)
Emit == Done => CSVWrite("%1$s", <<ToJson([s |-> s, q |-> q, v |-> Verdict])>>, IOEnv.OUT)
=============================================================================
