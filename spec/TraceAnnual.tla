------------------------------ MODULE TraceAnnual -----------------------------
(* Recorded runs with recorders of years.  A step records its first hour, its length in hours, the day it is dated, the nodes' flows and
   the indices in every scenario; the end of a run records every recorder's table, its years, and its values. *)
EXTENDS TraceLib, Annual, Record
C == INSTANCE Calendar
VARIABLES c, l, hist
K == Cases[c]
Scens == 1..Len(K.members)
Hour(y) == 24 * (C!DaysBeforeYear(y) + 1)
In(e, y) == Overlap(e.h, e.n, Hour(y), Hour(y + 1))
Dated(e) == C!YearOf(e.o)
Sum2(F(_)) == Total([i \in DOMAIN hist |-> F(hist[i])])
FlowIn(d, y, s) == R(Sum2(LAMBDA e : In(e, y) * Total([k \in DOMAIN d.nodes |-> e.fl[d.nodes[k]][s] * d.facs[k]])), 48)
DayNo(y, md, other) == IF md = <<>> THEN other ELSE C!Ord(y, md[1], md[2]) - C!DaysBeforeYear(y)
Out(d) == {d.months[k] : k \in DOMAIN d.months}
Hit(d, e, s) == /\ Counted(C!MonthOf(e.o), C!DayOfYear(e.o), Out(d), DayNo(Dated(e), d.from, 1), DayNo(Dated(e), d.to, 366))
                /\ Exceeds([k \in DOMAIN d.pars |-> e.ix[d.pars[k]][s]], d.thr)
HitsIn(d, y, s) == 1000 * Cardinality({i \in DOMAIN hist : Dated(hist[i]) = y /\ Hit(d, hist[i], s)})
YearsOver(d, s) == 1000 * Cardinality({y \in {Dated(hist[i]) : i \in DOMAIN hist} : \E i \in DOMAIN hist : Dated(hist[i]) = y /\ hist[i].ix[d.pars[1]][s] >= d.thr})
DataOk(d, x) == \/ d.kind = "years"
                \/ /\ Len(x.data) = Len(x.years)
                   /\ \A k \in DOMAIN x.years : \A s \in Scens : Near(x.data[k][s], IF d.kind = "total" THEN FlowIn(d, x.years[k], s) ELSE HitsIn(d, x.years[k], s), IF d.kind = "total" THEN 1 ELSE 0)
\* the table holds the years of the run's dates, and those the steps are dated in
YearsOk(d, x, e) == d.kind = "years" \/ (x.years = [k \in 1..Len(x.years) |-> e.first + k - 1] /\ e.first + Len(x.years) - 1 >= e.last /\ \A i \in DOMAIN hist : Dated(hist[i]) <= e.first + Len(x.years) - 1)
ColsOk(d, x) == d.kind = "years" \/ x.cols = K.members
ValsOk(d, x) == \A s \in Scens : IF d.kind = "years" THEN x.vals[s] = YearsOver(d, s) ELSE Near(x.vals[s], Agg(d.tf, [k \in DOMAIN x.data |-> x.data[k][s]], FALSE), Len(x.data))
AggOk(d, x) == Near(x.agg, Agg(d.af, x.vals, FALSE), Len(x.vals))
EndBad(e) == UNION {LET d == K.recs[k] x == e.rs[k] IN
   {<<d.kind, k, n>> : n \in Failed([years |-> YearsOk(d, x, e), data |-> DataOk(d, x), labels |-> ColsOk(d, x), values |-> ValsOk(d, x), aggregated |-> AggOk(d, x)])} : k \in DOMAIN K.recs}
TInit == c \in 1..Len(Cases) /\ l = 0 /\ hist = <<>>
TNext == LET e == Cases[c].ev[l'] IN
  /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
  /\ CASE e.k = "run" -> hist' = <<>>
       [] e.k = "step" -> hist' = Append(hist, e)
       [] e.k = "end" -> Report(c, l', EndBad(e)) /\ UNCHANGED hist
TSpec == TInit /\ [][TNext]_<<c, l, hist>>
===============================================================================
