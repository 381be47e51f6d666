------------------------------ MODULE ShapesMC ------------------------------
(***************************************************************************)
(* Drawing a shape: groups (collections, several polygons, lines, points) are    *)
(* taken apart until only simple shapes are left, each of which is painted once. *)
(* The canvas has blocks of 3 x 3 cells; a polygon covers a block, or all but its *)
(* middle if it has a hole; a line the middle row; a point the middle cell.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
VARIABLES i, todo, done, canvas
Trees == JsonDeserialize(IOEnv.IN)
\* a tree: [kind, block] or [kind, parts]
Group(t) == t.kind \in {"collection", "polygons", "lines", "points"}
All == {<<x, y>> : x \in 0..2, y \in 0..2}
Covers(t) == CASE t.kind = "polygon" -> All [] t.kind = "holed" -> All \ {<<1, 1>>} [] t.kind = "line" -> {<<0, 1>>, <<1, 1>>, <<2, 1>>} [] t.kind = "point" -> {<<1, 1>>} [] OTHER -> {}
Paint(t) == {<<3 * t.block[1] + c[1], 3 * t.block[2] + c[2]>> : c \in Covers(t)}
RECURSIVE Leaves(_)
Leaves(t) == IF Group(t) THEN UNION {Leaves(t.parts[n]) : n \in 1..Len(t.parts)} ELSE {t}
Init == i \in 1..Len(Trees) /\ todo = <<Trees[i]>> /\ done = {} /\ canvas = {}
Next == /\ todo # <<>> /\ UNCHANGED i
        /\ IF Group(Head(todo)) THEN todo' = Head(todo).parts \o Tail(todo) /\ UNCHANGED <<done, canvas>>
           ELSE todo' = Tail(todo) /\ done' = done \cup {Head(todo)} /\ canvas' = canvas \cup Paint(Head(todo))
Spec == Init /\ [][Next]_<<i, todo, done, canvas>>
Complete == todo = <<>> => done = Leaves(Trees[i]) /\ canvas = UNION {Paint(t) : t \in Leaves(Trees[i])}
Emit == todo = <<>> => CSVWrite("%1$s", <<ToJson([i |-> i, canvas |-> canvas])>>, IOEnv.OUT)
=============================================================================
