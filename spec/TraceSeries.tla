------------------------------ MODULE TraceSeries ------------------------------
(* Recorded runs with time series, array and stored-table inputs.  ps: the inputs; steps[run]: the timesteps <<from, to, month>>. *)
EXTENDS TraceLib, Series
VARIABLES c, l
Ps == Cases[c].ps
Steps(run) == Cases[c].steps[run]
Mem(p, s) == IF p.scen = 0 THEN 1 ELSE Cases[c].members[s][p.scen]
Rows(p, run) == IF p.k = "frame" THEN Len(Steps(run)) ELSE p.rows
Row(p, i, run) == Clamp(i + 1 + p.off, Rows(p, run))
Want(p, run, i, s) ==
  CASE p.k = "frame" -> LET v == Value(p.s, p.how, SubSeq(Steps(run)[Row(p, i, run)], 1, 2)) IN IF v = NAN THEN NAN ELSE v + 500 * (Mem(p, s) - 1)
    [] p.k = "array" -> p.v[i + 1][1]
    [] p.k \in {"sarray"} -> p.v[i + 1][Mem(p, s)]
    [] p.k = "factors" -> RDiv(p.v[i + 1][1] * p.f[Mem(p, s)][Steps(run)[i + 1][3]], 100)
    [] p.k = "tables" -> p.v[Row(p, i, run)][Mem(p, s)]
\* inputs that must be refused before the run begins
Hole(p, run) == \E j \in 1..Len(Steps(run)) : LET st == SubSeq(Steps(run)[j], 1, 2) IN ~Has(p.s, p.how, st) \/ Value(p.s, p.how, st) = NAN
Wrong(p, run) ==
  CASE p.k = "frame" -> Hole(p, run) \/ (p.cols > 1 /\ p.cols # p.size)
    [] p.k = "tables" -> p.rows < Len(Steps(run)) \/ p.cols < p.size
    [] OTHER -> FALSE
\* series whose entries cannot straddle the steps
Fits(p, run) ==
  CASE p.k # "frame" -> TRUE
    [] p.how = "days" -> Covers(p.s, Steps(run)[1][1], Steps(run)[Len(Steps(run))][2])
    [] OTHER -> LET a == Steps(run)[1][1] b == Steps(run)[Len(Steps(run))][2] IN
        /\ Covers(p.s, a, b)
        /\ \A j \in 1..Len(Steps(run)) : LET st == Steps(run)[j] e == p.s[At(p.s, st[1])] IN
              IF p.how = "finer" THEN e[1] = st[1] ELSE e[2] >= st[2]
        /\ (p.how = "start" /\ p.tick) => (a - p.s[1][1]) % (Steps(run)[1][2] - a) = 0
Short(p, i) == p.k \in {"array", "sarray", "factors"} /\ p.rows <= i
All == 1..Len(Ps)
Bad(e) ==
  CASE e.k = "setup" -> Failed([refused |-> e.ok => \A i \in All : ~Wrong(Ps[i], e.run),
                                accepted |-> ~e.ok => \E i \in All : Wrong(Ps[i], e.run) \/ ~Fits(Ps[i], e.run)])
    [] e.k = "step" -> {<<Ps[i].k, IF Ps[i].k = "frame" THEN Ps[i].how ELSE "", s>> : <<i, s>> \in
                          {x \in All \X (1..Len(Cases[c].members)) : Short(Ps[x[1]], e.i) \/ ~Near(e.v[x[1]][x[2]], Want(Ps[x[1]], e.run, e.i, x[2]), IF Ps[x[1]].k \in {"frame", "factors"} THEN 1 ELSE 0)}}
    \* only a series of numbers that is too short stops a run
    [] e.k = "stop" -> Failed([too_short |-> \E i \in All : Short(Ps[i], e.i)])
    [] e.k = "wrongsize" -> Failed([size_refused |-> e.refused])
TInit == c \in 1..Len(Cases) /\ l = 0
TNext == l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c /\ Report(c, l', Bad(Cases[c].ev[l']))
TSpec == TInit /\ [][TNext]_<<c, l>>
===============================================================================
