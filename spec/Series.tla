-------------------------------- MODULE Series --------------------------------
(* What a time series means for a timestep.  Times are hours.  A series is a sequence of entries <<from, to, value>> (to excluded), in
   order and without gaps; a timestep is <<from, to>>. *)
EXTENDS Integers, Sequences
SMin(a, b) == IF a <= b THEN a ELSE b
SMax(a, b) == IF a >= b THEN a ELSE b
\* position of the entry in force at time t, or 0
RECURSIVE Find(_, _, _, _)
Find(s, t, lo, hi) ==
  IF lo > hi THEN 0
  ELSE LET m == (lo + hi) \div 2 IN
    IF t < s[m][1] THEN Find(s, t, lo, m - 1) ELSE IF t >= s[m][2] THEN Find(s, t, m + 1, hi) ELSE m
At(s, t) == Find(s, t, 1, Len(s))
\* position of the first entry that begins at or after t
RECURSIVE FirstFrom(_, _, _, _)
FirstFrom(s, t, lo, hi) == IF lo > hi THEN lo ELSE LET m == (lo + hi) \div 2 IN IF s[m][1] >= t THEN FirstFrom(s, t, lo, m - 1) ELSE FirstFrom(s, t, m + 1, hi)
From(s, t) == FirstFrom(s, t, 1, Len(s))
RECURSIVE Sum(_, _, _)
Sum(s, i, j) == IF i > j THEN 0 ELSE IF i = j THEN s[i][3] ELSE LET m == (i + j) \div 2 IN Sum(s, i, m) + Sum(s, m + 1, j)
RECURSIVE DaySum(_, _, _)
\* sum and number of the values in force on the days of a step
DaySum(s, a, b) == IF a >= b THEN <<0, 0>>
                   ELSE LET r == DaySum(s, a + 24, b) e == At(s, a) IN IF e = 0 THEN r ELSE <<r[1] + s[e][3], r[2] + 1>>
Div(a, n) == (2 * a + n) \div (2 * n)
\* a finer series is averaged over the entries that begin in the step, a coarser one gives the entry in force at the start of the step,
\* and one of calendar periods the average over the step's days
Has(s, how, st) ==
  CASE how = "finer" -> From(s, st[1]) < From(s, st[2])
    [] how = "start" -> At(s, st[1]) # 0
    [] how = "days" -> DaySum(s, st[1], st[2])[2] > 0
Value(s, how, st) ==
  CASE how = "finer" -> LET i == From(s, st[1]) j == From(s, st[2]) - 1 IN Div(Sum(s, i, j), j - i + 1)
    [] how = "start" -> s[At(s, st[1])][3]
    [] how = "days" -> LET d == DaySum(s, st[1], st[2]) IN Div(d[1], d[2])
\* every moment of the steps has an entry
Covers(s, from, to) == s # <<>> /\ s[1][1] <= from /\ s[Len(s)][2] >= to
\* a look-up shifted by a number of steps stays within the data
Clamp(i, n) == SMin(SMax(i, 1), n)
===============================================================================
