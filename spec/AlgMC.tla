-------------------------------- MODULE AlgMC --------------------------------
(***************************************************************************)
(* States and commands form a vector space: every expression built from two   *)
(* vectors by sums, differences, scaling from either side and division has    *)
(* the componentwise value, and vector space laws hold.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Rat, TLC, Json, CSV, IOUtils
CONSTANTS Dim, MaxOps
Out == IOEnv.OUT
U == [j \in 1..Dim |-> QI(2 * j + 1)]
V == [j \in 1..Dim |-> QI(3 - j * j)]
Plus(x, y) == [j \in 1..Dim |-> QAdd(x[j], y[j])]
Scale(x, k) == [j \in 1..Dim |-> QMul(x[j], k)]
Minus(x, y) == Plus(x, Scale(y, QI(-1)))
VARIABLES x, h
Init == x \in {U, V} /\ h = <<IF x = U THEN "u" ELSE "v">>
Ks == {QI(-2), Q(1, 4), QI(0)}
Op(o, k, y) == x' = y /\ h' = h \o <<o, k>>
Next == /\ Len(h) < 1 + 2 * MaxOps
        /\ \/ \E n \in {"u", "v"} : LET z == IF n = "u" THEN U ELSE V IN
                 Op("add", n, Plus(x, z)) \/ Op("sub", n, Minus(x, z)) \/ Op("radd", n, Plus(z, x)) \/ Op("rsub", n, Minus(z, x))
           \/ \E k \in Ks : Op("mul", k, Scale(x, k)) \/ Op("rmul", k, Scale(x, k)) \/ (k[1] # 0 /\ Op("div", k, Scale(x, QDiv(QI(1), k))))
Spec == Init /\ [][Next]_<<x, h>>
Laws == /\ Plus(x, U) = Plus(U, x) /\ Plus(Plus(x, U), V) = Plus(x, Plus(U, V)) /\ Minus(x, x) = Scale(x, QI(0))
        /\ Scale(Plus(x, U), QI(3)) = Plus(Scale(x, QI(3)), Scale(U, QI(3))) /\ Scale(Scale(x, QI(2)), Q(1, 2)) = x
Emit == Len(h) = 1 + 2 * MaxOps => CSVWrite("%1$s", <<ToJson([h |-> h, x |-> x])>>, Out)
=============================================================================
