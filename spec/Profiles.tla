------------------------------- MODULE Profiles -------------------------------
(* What an annual profile gives on a day: its entry for the day's slot in the 366-day year, for its seven-day block, for its month,
   the straight line between the values of two months, or the even fall between two reset dates. *)
EXTENDS Calendar
LOCAL INSTANCE FiniteSets
Rnd(a, d) == (2 * a + d) \div (2 * d)
Daily(v, o) == v[LeapDayIndex(o) + 1]
Weekly(v, o) == v[WeekIndex(o) + 1]
Monthly(v, o) == v[MonthOf(o)]
\* the day's number in a 365-day year, where 29 February repeats the 28th
Day365(o) == LET i == LeapDayIndex(o) IN IF i <= 58 THEN i + 1 ELSE i
Month365(n) == MonthIn(FALSE, n)
NextOf(m) == IF m = 12 THEN 1 ELSE m + 1
PrevOf(m) == IF m = 1 THEN 12 ELSE m - 1
\* the value of a month holds on its first day, and moves evenly to that of the next
FromFirst(v, o) == LET n == Day365(o) m == Month365(n) IN v[m] + Rnd((v[NextOf(m)] - v[m]) * (n - CumMonth[m] - 1), MonthLen[m])
\* the value of a month holds on its last day
ToLast(v, o) == LET n == Day365(o) m == Month365(n) IN v[PrevOf(m)] + Rnd((v[m] - v[PrevOf(m)]) * (n - CumMonth[m]), MonthLen[m])

\* a year that has no 29 February resets on 1 March instead
ResetOn(y, m, d) == IF m = 2 /\ d = 29 /\ ~IsLeap(y) THEN Ord(y, 3, 1) ELSE Ord(y, m, d)
PeriodStart(m, d, o) == LET y == YearOf(o) IN IF ResetOn(y, m, d) <= o THEN ResetOn(y, m, d) ELSE ResetOn(y - 1, m, d)
PeriodEnd(m, d, o) == LET y == YearOf(o) IN IF ResetOn(y, m, d) <= o THEN ResetOn(y + 1, m, d) ELSE ResetOn(y, m, d)
PeriodLen(m, d, o) == PeriodEnd(m, d, o) - PeriodStart(m, d, o)
SlotOf(m, d) == CumMonth[m] + (IF m > 2 THEN 1 ELSE 0) + d - 1
\* days fallen so far: a period beginning by 29 February counts that day also in a year without it
Elapsed(m, d, o) ==
  IF SlotOf(m, d) <= 59 THEN (LeapDayIndex(o) + 366 - SlotOf(m, d)) % 366 ELSE o - PeriodStart(m, d, o)
\* in ten-thousandths
Drawdown(m, d, residual, o) ==
  LET t == PeriodLen(m, d, o) IN 10000 - Rnd((((t - residual) * Elapsed(m, d, o) * 100) \div t) * 100, t)
===============================================================================
