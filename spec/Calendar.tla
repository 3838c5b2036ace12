------------------------------- MODULE Calendar -------------------------------
(* Proleptic Gregorian calendar on day ordinals (1 = 0001-01-01, a Monday).    *)
EXTENDS Integers, Sequences

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysInYear(y) == IF IsLeap(y) THEN 366 ELSE 365
MonthLen == <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>
DaysInMonth(y, m) == IF m = 2 /\ IsLeap(y) THEN 29 ELSE MonthLen[m]
CumMonth == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysBeforeMonth(y, m) == CumMonth[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0)
DaysBeforeYear(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400

Ord(y, m, d) == DaysBeforeYear(y) + DaysBeforeMonth(y, m) + d

\* the year y with DaysBeforeYear(y) < o <= DaysBeforeYear(y + 1); the estimate is off by at most one
YearOf(o) ==
  LET g == (o * 400) \div 146097 + 1
  IN IF o <= DaysBeforeYear(g) THEN g - 1 ELSE IF o <= DaysBeforeYear(g + 1) THEN g ELSE g + 1
DayOfYear(o) == o - DaysBeforeYear(YearOf(o))
MonthIn(leap, n) ==
  LET k == IF leap THEN 1 ELSE 0
  IN IF n <= 31 THEN 1 ELSE IF n <= 59 + k THEN 2 ELSE IF n <= 90 + k THEN 3 ELSE IF n <= 120 + k THEN 4
     ELSE IF n <= 151 + k THEN 5 ELSE IF n <= 181 + k THEN 6 ELSE IF n <= 212 + k THEN 7 ELSE IF n <= 243 + k THEN 8
     ELSE IF n <= 273 + k THEN 9 ELSE IF n <= 304 + k THEN 10 ELSE IF n <= 334 + k THEN 11 ELSE 12
MonthOf(o) == MonthIn(IsLeap(YearOf(o)), DayOfYear(o))
DayOf(o) == DayOfYear(o) - DaysBeforeMonth(YearOf(o), MonthOf(o))
\* 0 = Monday ... 6 = Sunday
Weekday(o) == (o + 6) % 7

\* the day's index in a 366-day year: 29 February owns slot 59 whether or not the year has it
LeapDayIndex(o) ==
  LET i == DayOfYear(o) - 1
  IN IF ~IsLeap(YearOf(o)) /\ i > 58 THEN i + 1 ELSE i
WeekIndex(o) == IF LeapDayIndex(o) >= 364 THEN 51 ELSE LeapDayIndex(o) \div 7

\* months counted from year 0, for monthly/quarterly/annual periods
MonthNo(o) == YearOf(o) * 12 + MonthOf(o) - 1
FirstOfMonthNo(k) == Ord(k \div 12, (k % 12) + 1, 1)

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b
Abs(a) == IF a >= 0 THEN a ELSE -a
===============================================================================
