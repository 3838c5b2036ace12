----------------------------- MODULE TraceAquifer -----------------------------
(* Recorded runs of an aquifer: "begin": its description and the volume and level it starts with; "step": what was recorded in one timestep,
   scenario by scenario; "fail": the timestep could not be solved.                                                                          *)
EXTENDS TraceLib, Aquifer
VARIABLES c, l
A == Cases[c].aq
Ns(e) == 1..Len(e.v)
StepBad(e) ==
  LET h(s) == Level(A, e.v[s])
      prev == Cases[c].ev[l' - 1]
  IN Failed([level |-> \A s \in Ns(e) : Near(e.level[s], h(s), A.tol),
             streams |-> \A s \in Ns(e) : \A i \in DOMAIN A.at : Near(e.streams[s][i], Spring(h(s), A.at[i], A.tr, A.co, 1), A.ftol),
             probe |-> \A s \in Ns(e) : Near(e.probe[s], Spring(h(s), A.pat, A.tr, 100, 1), A.ptol),
             taken |-> \A s \in Ns(e) : Near(e.taken[s], Taken(A, e.v[s], e.r[s], e.a, e.d), A.ftol),
             given |-> \A s \in Ns(e) : Near(e.given[s], Given(A, e.v[s], e.r[s], e.a, e.d), A.ftol),
             volume |-> \A s \in Ns(e) : Near(e.v2[s], Next_(A, e.v[s], e.r[s], e.a, e.d), e.d * A.ftol),
             bounds |-> \A s \in Ns(e) : Dead(A) <= e.v2[s] /\ e.v2[s] <= Full(A),
             follows |-> e.v = IF prev.k = "begin" THEN [s \in Ns(e) |-> prev.v] ELSE prev.v2])
FailBad(e) == LET p == Cases[c].ev[l' - 1] IN
  Failed([feasible |-> p.k \in {"begin", "step"} /\ \E s \in DOMAIN e.r : LET v == IF p.k = "begin" THEN p.v ELSE p.v2[s] IN
            ~CanRun(A, v, e.r[s], e.d) \/ Near(e.d * Out(A, v), e.d * e.r[s] + v - Dead(A), e.d * A.ftol)])
BeginBad(e) == Failed([relation |-> A.vol = IF A.given THEN A.vol ELSE Slices(A.lev, A.sto, A.area, Len(A.lev)),
                       bounds |-> e.min = Dead(A) /\ e.max = Full(A),
                       volume |-> Near(e.v, IF e.way = "level" THEN Volume(A, e.ask) ELSE IF e.way = "pc" THEN (e.ask * (Full(A) \div 1000)) ELSE e.ask, 2 + 2 * A.vtol),
                       level |-> e.way = "pc" \/ Near(e.level, Level(A, e.v), A.tol)])
TInit == c \in 1..Len(Cases) /\ l = 0
TNext == LET e == Cases[c].ev[l'] IN
  /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
  /\ Report(c, l', CASE e.k = "step" -> StepBad(e) [] e.k = "begin" -> BeginBad(e) [] e.k = "fail" -> FailBad(e) [] OTHER -> {})
TSpec == TInit /\ [][TNext]_<<c, l>>
===============================================================================
