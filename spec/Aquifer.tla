-------------------------------- MODULE Aquifer --------------------------------
(* A groundwater store whose level follows from its volume and which discharges to its streams by its level.
   aq: [lev, vol: the relation of level and volume (whole numbers);  at: for each stream its outflow levels (in thousandths);
        tr: transmissivities (whole numbers), co: coefficient (hundredths)].  Volumes, levels and flows are in thousandths.      *)
EXTENDS Integers, Sequences, FiniteSets
Floor(a, b) == IF a >= 0 THEN (2 * a + b) \div (2 * b) ELSE -((2 * (-a) + b) \div (2 * b))
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
Rng(q) == {q[k] : k \in DOMAIN q}
Full(aq) == 1000 * MaxOf(Rng(aq.vol))
Dead(aq) == 1000 * MinOf(Rng(aq.vol))
\* the relation, when the storativity of each slice of the aquifer is given (area in units of 100 000 m2, storativity in hundredths)
RECURSIVE Slices(_, _, _, _)
Slices(lev, sto, area, k) == IF k = 1 THEN <<0>> ELSE LET u == Slices(lev, sto, area, k - 1) IN Append(u, u[k - 1] + area * sto[k - 1] * (lev[k] - lev[k - 1]))
\* x in thousandths on the line through (a, c) and (b, d)
OnLine(x, a, b, c, d) == 1000 * c + Floor((x - 1000 * a) * (d - c), b - a)
Interp(xs, ys, x) == LET k == MaxOf({1} \cup {j \in 1..Len(xs) - 1 : 1000 * xs[j] <= x}) IN OnLine(x, xs[k], xs[k + 1], ys[k], ys[k + 1])
Level(aq, v) == Interp(aq.vol, aq.lev, v)
Volume(aq, h) == Interp(aq.lev, aq.vol, h)
RECURSIVE Spring(_, _, _, _, _)
Spring(h, at, tr, co, k) == IF k > Len(at) THEN 0 ELSE (IF h > at[k] THEN Floor(2 * tr[k] * co * (h - at[k]), 100) ELSE 0) + Spring(h, at, tr, co, k + 1)
RECURSIVE Springs(_, _, _)
Springs(aq, h, k) == IF k > Len(aq.at) THEN 0 ELSE Spring(h, aq.at[k], aq.tr, aq.co, 1) + Springs(aq, h, k + 1)
Out(aq, v) == Springs(aq, Level(aq, v), 1)
Min2(a, b) == IF a < b THEN a ELSE b
\* recharge up to r is offered and abstraction up to a is wanted, each per day, in a step of d days
CanRun(aq, v, r, d) == d * Out(aq, v) <= d * r + v - Dead(aq)
Taken(aq, v, r, a, d) == Min2(a, (d * (r - Out(aq, v)) + v - Dead(aq)) \div d)
Given(aq, v, r, a, d) == Min2(r, (Full(aq) - v) \div d + Out(aq, v) + Taken(aq, v, r, a, d))
Next_(aq, v, r, a, d) == v + d * (Given(aq, v, r, a, d) - Taken(aq, v, r, a, d) - Out(aq, v))
================================================================================
