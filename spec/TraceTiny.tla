------------------------------ MODULE TraceTiny ------------------------------
(* The real solvers on the networks enumerated by MCNetwork: infeasible ones are refused, the others solved at the best cost
   (and with the only allocation where it is unique).                                                                       *)
EXTENDS TraceLib
VARIABLES c, l
TInit == c \in 1..Len(Cases) /\ l = 0
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
CostOf(e) == Sum([i \in 1..Len(e.c) |-> e.c[i] * e.flow[i]], Len(e.c))
Bad(e) == IF e.best = INF THEN Failed([infeasible_refused |-> e.failed])
          ELSE IF e.failed THEN {"feasible_solved"}
          ELSE Failed([best_cost |-> Near(CostOf(e), 1000 * e.best, 20),
                       only_allocation |-> e.want = <<>> \/ \A i \in 1..Len(e.flow) : Near(e.flow[i], 1000 * e.want[i], 2)])
TNext == l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c /\ Report(c, l', Bad(Cases[c].ev[l']))
TSpec == TInit /\ [][TNext]_<<c, l>>
==============================================================================
