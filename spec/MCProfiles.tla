------------------------------ MODULE MCProfiles ------------------------------
(* A clock walks day by day through years around 1900 and 2000; counters kept from day to day are compared with the closed forms. *)
EXTENDS Profiles, TLC
CONSTANTS Years, Resets
VARIABLES o, rs, since, block, inblock
vars == <<o, rs, since, block, inblock>>
YearsQuick == {1899, 1999}
YearsFull == {1896, 1899, 1902, 1996, 1999, 2002, 2099}
ResetsQuick == {<<1, 1>>, <<2, 29>>, <<3, 1>>, <<10, 1>>}
ResetsFull == {<<m, d>> : m \in 1..12, d \in {1, 15, 28}} \cup {<<2, 29>>, <<12, 31>>}
V == <<100, 400, 250, 250, 900, 0, 50, 1000, 30, 700, 300, 610>>
First == {Ord(y, 1, 1) : y \in Years}
Init == /\ o \in First /\ rs \in Resets
        /\ since = Elapsed(rs[1], rs[2], o) /\ block = 0 /\ inblock = 1
NewYear == MonthOf(o + 1) = 1 /\ DayOf(o + 1) = 1
Skipped == MonthOf(o) = 2 /\ DayOf(o) = 28 /\ ~IsLeap(YearOf(o))
Next == /\ o' = o + 1 /\ rs' = rs
        /\ ~\E y \in Years : o + 1 = Ord(y + 3, 1, 1)
        /\ since' = IF MonthOf(o + 1) = rs[1] /\ DayOf(o + 1) = rs[2] THEN 0
                    ELSE IF rs = <<2, 29>> /\ Skipped THEN 1
                    ELSE since + (IF Skipped /\ SlotOf(rs[1], rs[2]) <= 59 THEN 2 ELSE 1)
        /\ IF NewYear THEN block' = 0 /\ inblock' = 1
           ELSE IF Skipped THEN (IF inblock + 2 > 7 /\ block < 51 THEN block' = block + 1 /\ inblock' = inblock + 2 - 7 ELSE block' = block /\ inblock' = inblock + 2)
           ELSE IF inblock = 7 /\ block < 51 THEN block' = block + 1 /\ inblock' = 1 ELSE block' = block /\ inblock' = inblock + 1
Spec == Init /\ [][Next]_vars
Fall == since = Elapsed(rs[1], rs[2], o)
Blocks == block = WeekIndex(o)
\* the fall starts at one, never reaches below nothing and stays within the period
Bounds == /\ Elapsed(rs[1], rs[2], o) \in 0..365
          /\ (PeriodStart(rs[1], rs[2], o) = o /\ rs # <<2, 29>>) => Drawdown(rs[1], rs[2], 0, o) = 10000
          /\ Drawdown(rs[1], rs[2], 0, o) \in 0..10000 /\ PeriodLen(rs[1], rs[2], o) \in {365, 366}
\* the same calendar day has the same slot in every year, and slots follow the calendar
Slot == LeapDayIndex(o) = SlotOf(MonthOf(o), DayOf(o))
\* interpolated profiles pass through their knots and stay between them
Knots == /\ DayOf(o) = 1 => FromFirst(V, o) = V[MonthOf(o)]
         /\ DayOf(o) = MonthLen[MonthOf(o)] => ToLast(V, o) = V[MonthOf(o)]
         /\ LET m == MonthOf(o) IN FromFirst(V, o) >= Min2(V[m], V[NextOf(m)]) /\ FromFirst(V, o) <= Max2(V[m], V[NextOf(m)])
                                 /\ ToLast(V, o) >= Min2(V[m], V[PrevOf(m)]) /\ ToLast(V, o) <= Max2(V[m], V[PrevOf(m)])
\* and never jump: a day moves at most by the steepest slope
Smooth == LET n == o + 1 IN Abs(FromFirst(V, n) - FromFirst(V, o)) <= 37 /\ Abs(ToLast(V, n) - ToLast(V, o)) <= 37
===============================================================================
