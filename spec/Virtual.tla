-------------------------------- MODULE Virtual --------------------------------
(* Virtual storages that are replenished by the calendar (annual, seasonal, monthly) or by time passing (rolling).  Dates are day
   ordinals (Calendar); prev is the date of the preceding timestep of the run, 0 at its first timestep.
   A storage is [kind, rd, rm (reset day, month), ed, em (end day, month), months, im (months into the period at the start),
   toinit, n (timesteps of the window)].                                                                                     *)
EXTENDS Calendar, FiniteSets

\* the reset date of year y; 29 February is taken as 1 March where there is none
ResetDate(v, y) == Ord(y, v.rm, v.rd)
\* a reset date lies after prev and not after date
ResetPassed(v, prev, date) == \E y \in (YearOf(prev))..(YearOf(date)) : prev < ResetDate(v, y) /\ ResetDate(v, y) <= date
\* months into the current period at a date, counted from the first timestep's month
Count(v, first, date) == v.im + MonthNo(date) - MonthNo(first)
Replenished(v, first, prev, date) ==
  CASE v.kind \in {"annual", "seasonal"} -> IF prev = 0 THEN ResetDate(v, YearOf(date)) = date ELSE ResetPassed(v, prev, date)
    [] v.kind = "monthly" -> IF prev = 0 THEN v.im >= v.months
                             ELSE Count(v, first, date) \div v.months > Count(v, first, prev) \div v.months
    [] OTHER -> FALSE
\* days of the year as numbers that compare like dates
Md(m, d) == 32 * m + d
Active(v, date) ==
  IF v.kind # "seasonal" THEN TRUE
  ELSE LET x == Md(MonthOf(date), DayOf(date)) a == Md(v.rm, v.rd) b == Md(v.em, v.ed) IN
       IF a < b THEN a <= x /\ x < b ELSE a <= x \/ x < b
\* use of the last k steps out of a history (most recent last); older than the history = initial use per step (num / den each)
RECURSIVE SumLast(_, _)
SumLast(h, k) == IF k = 0 \/ h = <<>> THEN 0 ELSE h[Len(h)] + SumLast(SubSeq(h, 1, Len(h) - 1), k - 1)
\* what a rolling storage holds: its maximum minus the use of the preceding n - 1 timesteps; before the run it was used evenly so
\* that the initial volume results
Held(n, mx, init, h) == LET k == n - 1 before == Max2(k - Len(h), 0) IN
                        mx - SumLast(h, k) - (IF before = 0 THEN 0 ELSE ((mx - init) * before + k \div 2) \div k)
===============================================================================
