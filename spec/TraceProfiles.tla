----------------------------- MODULE TraceProfiles -----------------------------
(* Recorded runs with calendar profiles.  A case lists its profiles; d[run][p] holds the values (thousandths, one row per member)
   in force in that run.  An event is one timestep: its reference day and the value of every profile in every scenario. *)
EXTENDS TraceLib, Profiles
VARIABLES c, l
Ps == Cases[c].ps
Gives(p, row, o) ==
  CASE p.k = "daily" -> Daily(row, o)
    [] p.k = "weekly" -> Weekly(row, o)
    [] p.k = "monthly" -> Monthly(row, o)
    [] p.k = "first" -> FromFirst(row, o)
    [] p.k = "last" -> ToLast(row, o)
    [] p.k = "day365" -> row[Day365(o)]
    [] p.k = "doy" -> row[DayOfYear(o)]
    [] p.k = "drawdown" -> Drawdown(p.m, p.d, p.res, o)
\* a scaled profile multiplies (hundredths) the profile it scales
Want(i, run, s, o) ==
  LET p == Ps[i] row(j) == Cases[c].d[run][j][IF Ps[j].scen = 0 THEN 1 ELSE Cases[c].members[s][Ps[j].scen]] IN
    IF p.k = "scaled" THEN RDiv(Gives(Ps[p.of], row(p.of), o) * p.scale, 100) ELSE Gives(p, row(i), o)
Tol(p) == IF p.k \in {"first", "last", "day365", "doy"} THEN 1 ELSE IF p.k = "drawdown" THEN 2 ELSE IF p.k = "scaled" THEN 4 ELSE 0
Bad(e) ==
  CASE e.k = "step" -> {<<Ps[i].k, s>> : <<i, s>> \in {x \in (1..Len(Ps)) \X (1..Len(Cases[c].members)) : ~Near(e.v[x[1]][x[2]], Want(x[1], e.run, x[2], e.o), Tol(Ps[x[1]]))}}
    \* the 366 values a monthly profile lists
    [] e.k = "list" -> Failed([listed |-> Len(e.v) = 366 /\ \A n \in 1..366 : Near(e.v[n], Gives(Ps[e.p], Cases[c].d[e.run][e.p][1], Ord(2016, 1, 1) + n - 1), 1)])
    [] e.k = "wrongsize" -> Failed([refused |-> e.refused])
TInit == c \in 1..Len(Cases) /\ l = 0
TNext == l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c /\ Report(c, l', Bad(Cases[c].ev[l']))
TSpec == TInit /\ [][TNext]_<<c, l>>
===============================================================================
