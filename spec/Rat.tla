-------------------------------- MODULE Rat ---------------------------------
(* Exact rationals <<num, den>>, den > 0, in lowest terms. *)
EXTENDS Integers
LOCAL Ab(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Q(n, d) == LET sg == IF d < 0 THEN -1 ELSE 1
               g == Gcd(Ab(n), Ab(d)) IN IF n = 0 THEN <<0, 1>> ELSE <<(sg * n) \div g, (sg * d) \div g>>
QI(n) == <<n, 1>>
QAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Q(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), a[2] * (b[2] \div g))
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QMul(a, b) == LET g == Gcd(Ab(a[1]), b[2])  h == Gcd(Ab(b[1]), a[2]) IN IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
              ELSE <<(a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)>>
QDiv(a, b) == QMul(a, IF b[1] < 0 THEN <<-b[2], -b[1]>> ELSE <<b[2], b[1]>>)
\* whole parts first, so that the products stay small
RECURSIVE QLe(_, _)
QLe(a, b) == LET fa == a[1] \div a[2]  fb == b[1] \div b[2]  ra == a[1] % a[2]  rb == b[1] % b[2] IN
             IF fa # fb THEN fa < fb ELSE IF ra = 0 THEN TRUE ELSE IF rb = 0 THEN FALSE ELSE QLe(<<b[2], rb>>, <<a[2], ra>>)
QLt(a, b) == ~QLe(b, a)
QMin(a, b) == IF QLe(a, b) THEN a ELSE b
QMax(a, b) == IF QLe(a, b) THEN b ELSE a
QClip(x, lo, hi) == QMin(QMax(x, lo), hi)
QAbs(a) == <<Ab(a[1]), a[2]>>
QFloor(a) == a[1] \div a[2]
=============================================================================
