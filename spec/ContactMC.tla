------------------------------- MODULE ContactMC -------------------------------
(***************************************************************************)
(* Where bodies of any outline meet.  A body is a set of cells of a grid (side 2, even   *)
(* coordinates), the other one a set of cells of the grid shifted by one or a wall, a     *)
(* polyline along that grid.  The spec walks along the boundary of the first and collects   *)
(* the points where it crosses the other one.  Two crossings make the line of contact;      *)
(* a body inside the other one is pushed away from the middle; more crossings, or the end   *)
(* of a wall inside a body, may be left unresolved.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
VARIABLES i, todo, cross
vars == <<i, todo, cross>>
Scenes == JsonDeserialize(IOEnv.IN)
Sc == Scenes[i]
Set(s) == {s[n] : n \in DOMAIN s}
\* unit edges of the boundary of a set of cells with origin o: <<x1, y1, x2, y2>> with the lower end first
Cells(s, o) == {<<2 * c[1] + o[1], 2 * c[2] + o[2]>> : c \in Set(s)}
Sides(c) == {<<c[1], c[2], c[1] + 2, c[2]>>, <<c[1], c[2] + 2, c[1] + 2, c[2] + 2>>, <<c[1], c[2], c[1], c[2] + 2>>, <<c[1] + 2, c[2], c[1] + 2, c[2] + 2>>}
Boundary(C) == {e \in UNION {Sides(c) : c \in C} : Cardinality({c \in C : e \in Sides(c)}) = 1}
A == Cells(Sc.a, <<0, 0>>)
IsWall == Sc.wall # <<>>
Sorted(p, q) == IF p[1] < q[1] \/ p[2] < q[2] THEN <<p[1], p[2], q[1], q[2]>> ELSE <<q[1], q[2], p[1], p[2]>>
B == IF IsWall THEN {} ELSE Cells(Sc.b, Sc.off)
WallEdges == {Sorted(Sc.wall[n], Sc.wall[n + 1]) : n \in 1..(Len(Sc.wall) - 1)}
EdgesB == IF IsWall THEN WallEdges ELSE Boundary(B)
\* a horizontal and a vertical edge of the two grids cross in the middle of both, or not at all
Cross(e, f) == LET eh == e[2] = e[4]  fh == f[2] = f[4] IN
               IF eh = fh THEN {} ELSE LET h == IF eh THEN e ELSE f  v == IF eh THEN f ELSE e IN
               IF h[1] < v[1] /\ v[1] < h[3] /\ v[2] < h[2] /\ h[2] < v[4] THEN {<<v[1], h[2]>>} ELSE {}
InCells(p, C) == \E c \in C : c[1] < p[1] /\ p[1] < c[1] + 2 /\ c[2] < p[2] /\ p[2] < c[2] + 2
Corners(e) == {<<e[1], e[2]>>, <<e[3], e[4]>>}
\* a corner of the grid of the one is the middle of a cell of the other
Overlap == cross # {} \/ (\E e \in EdgesB : \E p \in Corners(e) : InCells(p, A)) \/ (\E e \in Boundary(A) : \E p \in Corners(e) : InCells(p, B))
Inside == cross = {} /\ \E e \in EdgesB : \E p \in Corners(e) : InCells(p, A)
Around == cross = {} /\ ~IsWall /\ \E e \in Boundary(A) : \E p \in Corners(e) : InCells(p, B)
Ends == IF IsWall /\ Sc.wall[1] # Sc.wall[Len(Sc.wall)] THEN {Sc.wall[1], Sc.wall[Len(Sc.wall)]} ELSE {}
EndsInside == {p \in Ends : InCells(p, A)}
SumX(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN 0 ELSE LET c == CHOOSE c \in T : TRUE IN c[1] + 1 + F(T \ {c}) IN F(S)
SumY(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN 0 ELSE LET c == CHOOSE c \in T : TRUE IN c[2] + 1 + F(T \ {c}) IN F(S)
Centroid(C) == <<SumX(C), SumY(C), Cardinality(C)>>                \* divided by the last one
Verdict == IF ~Overlap THEN "apart" ELSE IF Around THEN "around" ELSE IF Inside THEN "inside"
           ELSE IF Cardinality(cross) = 2 /\ EndsInside = {} THEN "two" ELSE "many"
Init == i \in DOMAIN Scenes /\ todo = Boundary(A) /\ cross = {}
Next == /\ todo # {} /\ LET e == CHOOSE e \in todo : TRUE IN todo' = todo \ {e} /\ cross' = cross \cup UNION {Cross(e, f) : f \in EdgesB}
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
---------------------------------------------------------------------------
Done == todo = {}
\* a closed curve is left as often as it is entered
Even == Done => (Cardinality(cross) + Cardinality(EndsInside)) % 2 = 0
\* seen from the other one the crossings are the same
Symmetric == Done => cross = UNION {Cross(f, e) : e \in Boundary(A), f \in EdgesB}
NotBoth == Done => ~(Inside /\ Around)
Emit == Done => CSVWrite("%1$s", <<ToJson([i |-> i, cross |-> cross, verdict |-> Verdict, a |-> Centroid(A), b |-> IF IsWall THEN <<0, 0, 0>> ELSE Centroid(B)])>>, IOEnv.OUT)
=============================================================================
