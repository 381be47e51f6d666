-------------------------------- MODULE FovMC --------------------------------
(***************************************************************************)
(* What a player sees with a sensor of range R and a field of view around its  *)
(* heading, standing at the origin and looking along +x, in a world of boxes.  *)
(* The sensor casts one ray per 1/20 of a radian, so everything within one ray  *)
(* of a boundary is left open: verdicts are "seen", "unseen" or "open".        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, CSV
CONSTANTS Size
VARIABLES i, d
\* the range in units of the grid: with 80, everything is four times smaller
Ranges == {20, 80}
Box(x, y, w, h) == <<x, y, x + w, y + h>>
Xs == IF Size = 1 THEN {-14, -3, 6, 9, 14, 22} ELSE {-26, -14, -8, -3, 2, 6, 9, 14, 18, 22}
Ys == IF Size = 1 THEN {-13, -2, 3, 10} ELSE {-24, -13, -7, -2, 3, 6, 10, 16}
Targets == {b \in {Box(x, y, s[1], s[2]) : x \in Xs, y \in Ys, s \in {<<4, 4>>, <<6, 3>>}} : ~(b[1] < 2 /\ b[3] > -2 /\ b[2] < 2 /\ b[4] > -2)}
Blockers == {Box(5, -4, 2, 8), Box(-8, -6, 3, 12), Box(3, 3, 9, 2), Box(-4, 5, 8, 2), Box(7, -11, 3, 22)}
Corners(b) == {<<b[1], b[2]>>, <<b[3], b[2]>>, <<b[3], b[4]>>, <<b[1], b[4]>>}
Ab(x) == IF x < 0 THEN -x ELSE x
N2(p) == p[1] * p[1] + p[2] * p[2]
Clamp(lo, hi) == IF lo > 0 THEN lo ELSE IF hi < 0 THEN hi ELSE 0
Near2(b) == N2(<<Clamp(b[1], b[3]), Clamp(b[2], b[4])>>)
Far2(b) == LET S == {N2(c) : c \in Corners(b)} IN CHOOSE m \in S : \A s \in S : s <= m
Disjoint(a, b) == a[3] < b[1] \/ b[3] < a[1] \/ a[4] < b[2] \/ b[4] < a[2]
\* the segment from the origin to c passes through b: t*c in b for some t in [0, 1]; per axis the interval of t, as fractions of (lo, hi, den > 0)
Ax(c, lo, hi) == IF c = 0 THEN IF lo <= 0 /\ 0 <= hi THEN <<0, 1, 1>> ELSE <<1, 0, 1>>
                 ELSE IF c > 0 THEN <<lo, hi, c>> ELSE <<-hi, -lo, -c>>
LeF(a, x, b, y) == a * y <= b * x          \* a/x <= b/y
Through(c, b) == LET u == Ax(c[1], b[1], b[3])  v == Ax(c[2], b[2], b[4]) IN
   /\ u[1] <= u[3] /\ v[1] <= v[3] /\ u[2] >= 0 /\ v[2] >= 0 /\ u[1] <= u[2] /\ v[1] <= v[2]
   /\ LeF(u[1], u[3], v[2], v[3]) /\ LeF(v[1], v[3], u[2], u[3])
Shrink(b) == <<b[1] + 1, b[2] + 1, b[3] - 1, b[4] - 1>>
Thick(b) == b[3] - b[1] > 2 /\ b[4] - b[2] > 2
\* narrow boxes are shrunk across the line of sight only
Core(b) == IF b[3] - b[1] > 2 THEN IF b[4] - b[2] > 2 THEN Shrink(b) ELSE <<b[1] + 1, b[2], b[3] - 1, b[4]>> ELSE <<b[1], b[2] + 1, b[3], b[4] - 1>>
Hidden(t, b) == \A c \in Corners(t) : Through(c, Core(b))
\* fields of view: 4 = all around, 3 = all but a quarter of a radian behind, 2 = the half plane ahead, 1 = the quarter ahead
Outside(t, fov) == CASE fov = 4 -> FALSE
                     [] fov = 3 -> \A c \in Corners(t) : c[1] < 0 /\ 100 * Ab(c[2]) < -6 * c[1]
                     [] fov = 2 -> \A c \in Corners(t) : 10 * c[1] < -Ab(c[2])
                     [] fov = 1 -> (\A c \in Corners(t) : 9 * c[2] > 11 * c[1] + 9 /\ c[2] > -c[1]) \/ (\A c \in Corners(t) : -9 * c[2] > 11 * c[1] + 9 /\ -c[2] > -c[1])
                                   \/ (\A c \in Corners(t) : c[1] < -1)
Inside(t, fov) == CASE fov = 4 -> TRUE
                     [] fov = 3 -> (\A c \in Corners(t) : c[1] > 0) \/ (\A c \in Corners(t) : 5 * c[2] > Ab(c[1])) \/ (\A c \in Corners(t) : -5 * c[2] > Ab(c[1]))
                     [] fov = 2 -> \A c \in Corners(t) : 10 * c[1] > Ab(c[2])
                     [] fov = 1 -> \A c \in Corners(t) : 11 * Ab(c[2]) < 9 * c[1]
Hull(t) == <<Clamp(t[1], 0) - (IF t[1] > 0 THEN 0 ELSE 0), 0, 0, 0>>
Span(t) == <<IF t[1] < 0 THEN t[1] ELSE 0, IF t[2] < 0 THEN t[2] ELSE 0, IF t[3] > 0 THEN t[3] ELSE 0, IF t[4] > 0 THEN t[4] ELSE 0>>
Grow(b) == <<b[1] - 1, b[2] - 1, b[3] + 1, b[4] + 1>>
See(t, others, fov, R) ==
   IF Near2(t) > R * R + R \/ Outside(t, fov) \/ \E b \in others : Hidden(t, b) THEN "unseen"
   ELSE IF Far2(t) < R * R - R /\ Inside(t, fov) /\ \A b \in others : Disjoint(Grow(b), Span(t)) THEN "seen"
   ELSE "open"
\* without occlusion, all around
SeeFull(t, R) == IF 100 * Near2(t) > 101 * R * R THEN "unseen" ELSE IF 100 * Near2(t) < 98 * R * R THEN "seen" ELSE "open"
Behind == [t : {Box(-60, -2, 4, 4), Box(-50, -1, 6, 2), Box(-40, 20, 4, 4), Box(30, 4, 4, 4)}, b : {Box(5, -4, 2, 8), Box(-4, 5, 8, 2)}, fov : {3, 4}, static : BOOLEAN, r : {80}]
Inputs == Behind \cup {x \in [t : Targets, b : Blockers, fov : {1, 2, 4}, static : BOOLEAN, r : Ranges] :
             Disjoint(Grow(x.t), x.b) /\ (x.r = 80 => (x.t[1] + x.t[2] + x.b[1]) % 2 = 0) /\ (Size > 1 \/ (x.t[1] + x.t[2] + x.b[1] + x.b[2] + x.fov) % 2 = 0 \/ x.fov = 4)}
Init == i \in Inputs /\ d = <<>>
Next == d = <<>> /\ d' = [t |-> See(i.t, {i.b}, i.fov, i.r), b |-> See(i.b, {i.t}, i.fov, i.r), tf |-> SeeFull(i.t, i.r), bf |-> SeeFull(i.b, i.r)] /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, d>>
Done == d # <<>>
\* a wider view never sees less, an additional obstacle never makes anything appear
Monotone == Done => /\ (d.t = "seen" => See(i.t, {i.b}, 4, i.r) = "seen" /\ See(i.t, {}, i.fov, i.r) = "seen")
                    /\ (d.t = "seen" => d.tf = "seen")
                    /\ (See(i.t, {}, i.fov, i.r) = "unseen" => d.t = "unseen")
\* of two bodies hiding each other
NotMutual == Done => ~(Hidden(i.t, i.b) /\ Hidden(i.b, i.t))
Emit == Done => CSVWrite("%1$s", <<ToJson([x |-> i, d |-> d])>>, IOEnv.OUT)
=============================================================================
