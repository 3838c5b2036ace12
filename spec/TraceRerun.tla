------------------------------ MODULE TraceRerun ------------------------------
EXTENDS TraceLib
VARIABLES k, l, c, stale, pos
R == INSTANCE Rerun WITH Ref <- LAMBDA m, d : Cases[m].refs[d]
TInit == l = 0 /\ \E m \in 1..Len(Cases) : R!RInit(m, 1)
Tol == Cases[k].tol
\* same shape and same values within tolerance; values are compared relative to size
NearV(a, b) == Near(a, b, Tol + (IF a > 0 THEN a ELSE 0 - a) \div 20000)
RowSame(a, b) == Len(a) = Len(b) /\ \A s \in 1..Len(a) : Len(a[s]) = Len(b[s]) /\ \A i \in 1..Len(a[s]) : NearV(a[s][i], b[s][i])
\* the labels of quantities that differ
Diff(a, b) == IF Len(a) # Len(b) THEN {"scenarios"}
              ELSE {Cases[k].labels[i] : i \in {i \in 1..Len(Cases[k].labels) :
                       \E s \in 1..Len(a) : Len(a[s]) = Len(Cases[k].labels) /\ Len(b[s]) = Len(a[s]) /\ ~NearV(a[s][i], b[s][i])}}
FDiff(a, b) == {x \in DOMAIN b : ~(x \in DOMAIN a /\ Len(a[x].v) = Len(b[x].v) /\ Len(a[x].e) = Len(b[x].e)
                     /\ (\A i \in 1..Len(a[x].v) : RowSame(<<a[x].v[i]>>, <<b[x].v[i]>>))
                     /\ (\A i \in 1..Len(a[x].e) : RowSame(<<a[x].e[i]>>, <<b[x].e[i]>>)))}
Bad(e) ==
  CASE e.k = "change" -> {}
    [] e.k = "reset" -> IF R!CanReset THEN {} ELSE {"reset"}
    [] e.k = "step" -> IF ~R!CanStep THEN {"step"} ELSE IF RowSame(e.row, R!StepRow) THEN {} ELSE Diff(e.row, R!StepRow) \cup {"row"}
    [] e.k = "run" -> IF Len(e.rows) # Len(R!RunRows) THEN {"number_of_timesteps"}
                      ELSE UNION {IF RowSame(e.rows[i], R!RunRows[i]) THEN {} ELSE Diff(e.rows[i], R!RunRows[i]) \cup {"row"} : i \in 1..Len(e.rows)}
                           \cup FDiff(e.final, R!Final)
    [] e.k = "finish" -> (IF R!CanFinish THEN {} ELSE {"finish"}) \cup FDiff(e.final, R!Final)
    [] e.k = "same" -> IF RowSame(e.a, e.b) THEN {} ELSE {"isolation"} \cup Diff(e.a, e.b)
    [] e.k = "samefinal" -> FDiff(e.a, e.b)
Act(e) ==
  CASE e.k = "change" -> R!Change(e.d, e.period)
    [] e.k = "reset" -> R!Reset
    [] e.k = "step" -> R!Step
    [] e.k = "run" -> R!Run
    [] OTHER -> UNCHANGED <<k, c, stale, pos>>
TNext == /\ l < Len(Cases[k].ev) /\ l' = l + 1 
         /\ LET e == Cases[k].ev[l + 1] IN Act(e) /\ Report(k, l', Bad(e))
TSpec == TInit /\ [][TNext]_<<k, l, c, stale, pos>>
===============================================================================
