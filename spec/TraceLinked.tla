------------------------------ MODULE TraceLinked ------------------------------
EXTENDS TraceLib
VARIABLES k, l, running, step, turn, cur
L == INSTANCE Linked WITH w <- k, Models <- LAMBDA x : Cases[x].n, Times <- LAMBDA x : Cases[x].times, Scens <- LAMBDA x : Cases[x].scens,
                          Links <- LAMBDA x : Cases[x].links
\* runs with changed inputs are traces of their own
TInit == l = 0 /\ \E m \in 1..Len(Cases) : L!LInit(m)
NearV(a, b) == Near(a, b, 2 + (IF a > 0 THEN a ELSE 0 - a) \div 20000)
RowSame(a, b) == Len(a) = Len(b) /\ \A s \in 1..Len(a) : Len(a[s]) = Len(b[s]) /\ \A i \in 1..Len(a[s]) : NearV(a[s][i], b[s][i])
Diff(lab, a, b) == IF Len(a) # Len(b) THEN {"scenarios"}
              ELSE {lab[i] : i \in {i \in 1..Len(lab) :
                       \E s \in 1..Len(a) : Len(a[s]) = Len(lab) /\ Len(b[s]) = Len(a[s]) /\ ~NearV(a[s][i], b[s][i])}}
FDiff(a, b) == {x \in DOMAIN b : ~(x \in DOMAIN a /\ Len(a[x].v) = Len(b[x].v) /\ Len(a[x].e) = Len(b[x].e)
                     /\ (\A i \in 1..Len(a[x].v) : RowSame(<<a[x].v[i]>>, <<b[x].v[i]>>))
                     /\ (\A i \in 1..Len(a[x].e) : RowSame(<<a[x].e[i]>>, <<b[x].e[i]>>)))}
Kind(x) == Cases[k].links[x].kind
Bad(e) ==
  CASE e.k = "start" -> Failed([started |-> L!CanStart])
    [] e.k = "refused" -> Failed([refused_although_all_coincide |-> L!CanRefuse])
    [] e.k = "turn" -> IF ~L!CanTurn(e.m) THEN {"turn_of_another_model"}
                       ELSE Failed([timestep |-> <<e.date, e.days>> = Cases[k].times[e.m][step]])
                            \cup {<<"read", Kind(x)>> : x \in {x \in L!InLinks(e.m) : e.ins[x] # L!Read(x)}}
    [] e.k = "end" -> Failed([all_run_to_the_end |-> L!CanEnd])
    [] e.k = "option" -> Failed([solver |-> e.got = e.want])
    [] e.k = "alone" -> IF Len(e.a) # Len(e.b) THEN {"number_of_timesteps"}
                        ELSE UNION {IF RowSame(e.a[i], e.b[i]) THEN {} ELSE Diff(e.labels, e.a[i], e.b[i]) \cup {"alone"} : i \in 1..Len(e.a)}
                             \cup FDiff(e.fa, e.fb)
Act(e) ==
  CASE e.k = "start" -> L!Start(e.init)
    [] e.k = "refused" -> L!Refuse
    [] e.k = "turn" -> L!Turn(e.m, e.outs)
    [] e.k = "end" -> L!End
    [] OTHER -> UNCHANGED <<k, running, step, turn, cur>>
TNext == /\ l < Len(Cases[k].ev) /\ l' = l + 1
         /\ LET e == Cases[k].ev[l + 1] IN Act(e) /\ Report(k, l', Bad(e))
TSpec == TInit /\ [][TNext]_<<k, l, running, step, turn, cur>>
================================================================================
