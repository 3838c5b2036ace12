------------------------------- MODULE MCVirtual -------------------------------
(* The bookkeeping a simulation can keep (the year of the last replenishment, a count of months, a ring of uses) against the
   declarative schedule of Virtual, for every reset date of a sample and every sequence of step lengths of a sample. *)
EXTENDS Virtual, TLC
VARIABLES v, first, prev, date, lastyear, count, lastmonth, did, n
vars == <<v, first, prev, date, lastyear, count, lastmonth, did, n>>
CONSTANTS Depth
Lens == {1, 6, 31, 61, 181, 366, 500}
Starts == {Ord(2015, 12, 30), Ord(2016, 2, 27), Ord(2017, 2, 28), Ord(2016, 1, 1), Ord(2016, 10, 1)}
Stores == [kind : {"annual", "seasonal"}, rd : {1, 29}, rm : {1, 2, 10}, ed : {1}, em : {3, 1}, months : {1}, im : {0}]
          \cup [kind : {"monthly"}, rd : {1}, rm : {1}, ed : {1}, em : {1}, months : {1, 2, 3, 12}, im : {0, 1, 2}]
\* what the bookkeeping does at a timestep
YearMark(d) == IF Md(MonthOf(d), DayOf(d)) >= Md(v.rm, v.rd) THEN YearOf(d) ELSE YearOf(d) - 1
Book(d, isfirst) ==
  IF v.kind = "monthly" THEN
     LET c == IF isfirst THEN v.im ELSE count + MonthNo(d) - lastmonth IN
       /\ did' = (c >= v.months)
       /\ count' = IF c >= v.months THEN c % v.months ELSE c
       /\ lastmonth' = MonthNo(d) /\ UNCHANGED lastyear
  ELSE LET ly == IF isfirst /\ Md(MonthOf(d), DayOf(d)) # Md(v.rm, v.rd) THEN YearMark(d) ELSE lastyear IN
       /\ did' = (YearMark(d) # ly)
       /\ lastyear' = YearMark(d) /\ UNCHANGED <<count, lastmonth>>
Init == v \in Stores /\ first \in Starts /\ prev = 0 /\ date = 0 /\ lastyear = 0 /\ count = 0 /\ lastmonth = 0 /\ did = FALSE /\ n = 0
Next == /\ n < Depth /\ n' = n + 1 /\ UNCHANGED <<v, first>>
        /\ \E k \in Lens : date' = IF n = 0 THEN first ELSE date + k
        /\ prev' = date
        /\ Book(date', n = 0)
Spec == Init /\ [][Next]_vars
Ambiguous == v.rm = 2 /\ v.rd = 29 /\ ~IsLeap(YearOf(first)) /\ prev = 0
Faithful == n = 0 \/ Ambiguous \/ did = Replenished(v, first, prev, date)
\* a step shorter than a year passes at most one reset date, and a year never passes without one
Once == (v.kind # "monthly" /\ prev # 0 /\ date - prev <= 365) => Cardinality({y \in 2014..2025 : prev < ResetDate(v, y) /\ ResetDate(v, y) <= date}) <= 1
Yearly == (v.kind # "monthly" /\ prev # 0 /\ date - prev >= 366) => Replenished(v, first, prev, date)
\* a seasonal storage is active on its first day and not on its end day
Season == (v.kind = "seasonal" /\ n > 0 /\ Md(v.rm, v.rd) # Md(v.em, v.ed)) =>
            /\ (Md(MonthOf(date), DayOf(date)) = Md(v.rm, v.rd) => Active(v, date))
            /\ (Md(MonthOf(date), DayOf(date)) = Md(v.em, v.ed) => ~Active(v, date))
===============================================================================
