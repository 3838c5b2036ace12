------------------------------ MODULE Timestepper ------------------------------
(* The clock of a simulation: steps tile the simulated period.                  *)
(* freq is a record [kind |-> "D"|"W"|"M"|"Q"|"Y", n |-> multiple, wd |-> last weekday of a week].  *)
EXTENDS Calendar, FiniteSets

VARIABLES idx,      \* index of the current step
          first,    \* ordinal of its first day
          last,     \* ordinal of its last day
          ref,      \* ordinal of its reference day (the day its calendar fields describe)
          period    \* [start, end, freq] of the run (constant during a run)
tvars == <<idx, first, last, ref, period>>

BaseMonths(k) == IF k = "M" THEN 1 ELSE IF k = "Q" THEN 3 ELSE 12

\* first day of the base period (one unit of the frequency) holding day o
BaseFirst(f, o) ==
  CASE f.kind = "D" -> o
    [] f.kind = "W" -> o - ((Weekday(o) - f.wd - 1) % 7)
    [] OTHER -> LET b == BaseMonths(f.kind) IN FirstOfMonthNo((MonthNo(o) \div b) * b)
\* first day after k units starting at the first day o of a unit
After(f, o, k) ==
  CASE f.kind = "D" -> o + k
    [] f.kind = "W" -> o + 7 * k
    [] OTHER -> FirstOfMonthNo(MonthNo(o) + BaseMonths(f.kind) * k)

StepFirst(p) == BaseFirst(p.freq, p.start)
StepLast(f, o) == After(f, o, f.n) - 1
RefDay(f, o) == IF f.kind = "D" THEN o ELSE After(f, o, 1) - 1

Begin(p) ==
  /\ period' = p
  /\ idx' = 0
  /\ first' = StepFirst(p)
  /\ last' = StepLast(p.freq, first')
  /\ ref' = RefDay(p.freq, first')

\* there is a next step iff its first unit is not after the unit that holds the end
HasNext == last + 1 <= BaseFirst(period.freq, period.end)
Advance ==
  /\ HasNext
  /\ idx' = idx + 1
  /\ first' = last + 1
  /\ last' = StepLast(period.freq, first')
  /\ ref' = RefDay(period.freq, first')
  /\ UNCHANGED period

Days == last - first + 1
CrossesYear == YearOf(last) # YearOf(ref)
DaysInCurrentYear == IF CrossesYear THEN Ord(YearOf(last), 1, 1) - first ELSE Days
DaysInNextYear == Days - DaysInCurrentYear

FieldsOf(i, f, la, r) ==
  LET y == YearOf(r)
      doy == r - DaysBeforeYear(y)
      leap == IsLeap(y)
      m == MonthIn(leap, doy)
      doyi == IF ~leap /\ doy > 59 THEN doy ELSE doy - 1
      days == la - f + 1
      dcur == IF YearOf(la) # y THEN Ord(YearOf(la), 1, 1) - f ELSE days
  IN [index |-> i, first |-> f, days |-> days, year |-> y, month |-> m, day |-> doy - DaysBeforeMonth(y, m),
      doy |-> doy, doyi |-> doyi, week |-> IF doyi >= 364 THEN 51 ELSE doyi \div 7,
      leap |-> leap, dcur |-> dcur, dnext |-> days - dcur]

(* ---- properties of the design ---- *)
FieldRanges ==
  /\ FieldsOf(idx, first, last, ref) =
       [index |-> idx, first |-> first, days |-> Days, year |-> YearOf(ref), month |-> MonthOf(ref), day |-> DayOf(ref),
        doy |-> DayOfYear(ref), doyi |-> LeapDayIndex(ref), week |-> WeekIndex(ref), leap |-> IsLeap(YearOf(ref)),
        dcur |-> DaysInCurrentYear, dnext |-> DaysInNextYear]
  /\ Days >= 1
  /\ first <= ref /\ ref <= last
  /\ LeapDayIndex(ref) \in 0..365
  /\ WeekIndex(ref) \in 0..51
  /\ Ord(YearOf(ref), MonthOf(ref), DayOf(ref)) = ref
  /\ MonthOf(ref) \in 1..12 /\ DayOf(ref) \in 1..DaysInMonth(YearOf(ref), MonthOf(ref))
\* a calendar day keeps its index in every year
SameDaySameIndex ==
  \A k \in 1..4 : ~(MonthOf(ref) = 2 /\ DayOf(ref) = 29) =>
     LeapDayIndex(Ord(YearOf(ref) + k, MonthOf(ref), DayOf(ref))) = LeapDayIndex(ref)
StartHeld == idx = 0 => first <= period.start
EndHeld == ~HasNext => first <= period.end /\ period.end <= last
Tiles == [][idx' = idx + 1 /\ first' = last + 1]_<<idx, first, last>>
================================================================================
