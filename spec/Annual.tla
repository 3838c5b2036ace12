-------------------------------- MODULE Annual --------------------------------
(* What is accumulated by calendar year: flows by the time each step spends in the year, exceedances by the step's date. *)
EXTENDS Integers, Sequences, FiniteSets
Later(a, b) == IF a >= b THEN a ELSE b
Earlier(a, b) == IF a <= b THEN a ELSE b
\* the part of [at, at + n) that lies within [lo, hi)
Overlap(at, n, lo, hi) == Later(0, Earlier(at + n, hi) - Later(at, lo))
\* a step with its month and day of the year is counted unless its month is left out or its day is out of range
Counted(month, day, excluded, from, to) == month \notin excluded /\ from <= day /\ day <= to
\* any number of indices over the threshold count once
Exceeds(indices, threshold) == \E i \in DOMAIN indices : indices[i] >= threshold
How(n) == IF n THEN 1 ELSE 0
===============================================================================
