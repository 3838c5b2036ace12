-------------------------------- MODULE Fixed ---------------------------------
(* Numbers in thousandths, within plus or minus two thousand.  Operations round to the nearest thousandth. *)
EXTENDS Integers, Sequences
One == 1000
R(a, d) == (a + d \div 2) \div d
Abs(a) == IF a < 0 THEN -a ELSE a
Lo2(a, b) == IF a <= b THEN a ELSE b
Hi2(a, b) == IF a >= b THEN a ELSE b
\* the multiplicand is split so that no product exceeds 32 bits
Mul(a, b) == LET big == IF Abs(a) >= Abs(b) THEN a ELSE b small == IF Abs(a) >= Abs(b) THEN b ELSE a IN
             (small \div 1000) * big + R((small % 1000) * big, 1000)
DivPos(a, b) == (a \div b) * 1000 + R((a % b) * 1000, b)
Dvd(a, b) == IF b > 0 THEN DivPos(a, b) ELSE DivPos(-a, -b)
\* a * b / c for 0 <= b <= c
Part(a, b, c) == (a \div c) * b + R((a % c) * b, c)
RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN One ELSE Mul(Pow(a, n - 1), a)
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE Head(s) + Total(Tail(s))
RECURSIVE Product(_)
Product(s) == IF s = <<>> THEN One ELSE Mul(Head(s), Product(Tail(s)))
RECURSIVE Most(_)
Most(s) == IF Len(s) = 1 THEN s[1] ELSE Hi2(s[1], Most(Tail(s)))
RECURSIVE Least(_)
Least(s) == IF Len(s) = 1 THEN s[1] ELSE Lo2(s[1], Least(Tail(s)))
\* e to the power x, for x between minus six and six
RECURSIVE ExpSmall(_, _)
ExpSmall(x, n) == IF n = 8 THEN One * 10 ELSE One * 10 + R(R(x * ExpSmall(x, n + 1), 1000), n)
Exp(x) == LET e == ExpSmall(R(x, 4), 1) IN LET e2 == R(e * e, 10000) IN R((e2 \div 1000) * e2, 100) + R((e2 % 1000) * e2, 100000)
===============================================================================
