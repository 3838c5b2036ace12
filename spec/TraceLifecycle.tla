---------------------------- MODULE TraceLifecycle ----------------------------
EXTENDS Lifecycle, TraceLib
VARIABLES c, l
SetOf(s) == {s[i] : i \in 1..Len(s)}
CfgOf(k) == [all |-> SetOf(Cases[k].all), vals |-> SetOf(Cases[k].vals), deps |-> SetOf(Cases[k].deps), n |-> Cases[k].n]
TInit == /\ c \in 1..Len(Cases) /\ l = 0 /\ InitWith(CfgOf(c))
\* a dependency graph over 1..n (edges <<x, y>>) has a cycle iff removing nodes without dependencies gets stuck
RECURSIVE Peel(_, _)
Peel(S, E) == LET free == {x \in S : ~\E d \in E : d[1] = x /\ d[2] \in S}
              IN IF free = {} THEN S ELSE Peel(S \ free, E)
Cyclic(n, E) == Peel(1..n, E) # {}
Ord == Cases[c].order        \* whether dependency order is judged
Life == Cases[c].life        \* whether the life cycle is judged
Clauses(e) ==
  CASE e.k = "call" -> [called_idle |-> ~Life \/ phase = "idle"]
    [] e.k = "setup" -> [setup |-> ~Life \/ CanSetup(e.x)]
    [] e.k = "reset" -> [reset |-> ~Life \/ CanReset(e.x), reset_order |-> ~Ord \/ OrderOK(e.x)]
    [] e.k = "before" -> [before |-> ~Life \/ CanBefore(e.x), before_order |-> ~Ord \/ OrderOK(e.x), timestep |-> e.ts = pos - 1]
    [] e.k = "value" -> [value |-> ~Life \/ CanValue(e.x), value_order |-> ~Ord \/ ValueOrderOK(e.x), timestep |-> e.ts = pos - 1]
    [] e.k = "solve" -> [allocation |-> ~Life \/ CanSolve]
    [] e.k = "after" -> [after |-> ~Life \/ CanAfter(e.x), after_order |-> ~Ord \/ OrderOK(e.x), timestep |-> e.ts = pos - 1]
    [] e.k = "finish" -> [finish |-> ~Life \/ CanFinish(e.x), finish_order |-> ~Ord \/ OrderOK(e.x)]
    [] e.k = "fail" -> [fail_in_step |-> CanFail]
    [] e.k = "return" -> [returned |-> CanReturn, error_propagated |-> e.ok = ~failed]
    [] e.k = "change" -> [changed |-> TRUE]
    [] e.k = "same" -> [same_results |-> e.a = e.b]
    [] e.k = "cyclic" -> LET cyc == Cyclic(e.np, SetOf(e.edges)) IN
                             [cycle_refused |-> e.refused = cyc, cycle_not_run |-> cyc => e.values = 0]
    [] e.k = "values" -> [values |-> e.a = e.b]
Act(e) ==
  CASE e.k = "call" -> IF phase = "idle" THEN
                          /\ op' = e.op /\ failed' = FALSE
                          /\ cnt' = [setup |-> Zero, reset |-> Zero, finish |-> Zero]
                          /\ IF e.op = "setup" \/ (e.op \in {"run", "step"} /\ dirty)
                               THEN phase' = "setup" /\ pend' = cfg.all /\ pendv' = pendv /\ pos' = 0
                               ELSE IF e.op \in {"reset", "run"} THEN phase' = "reset" /\ pend' = cfg.all /\ pendv' = pendv /\ pos' = 0
                               ELSE BeginStep
                          /\ UNCHANGED <<cfg, dirty>>
                       ELSE UNCHANGED lvars
    [] e.k = "setup" -> IF CanSetup(e.x) THEN DoSetup(e.x) ELSE UNCHANGED lvars
    [] e.k = "reset" -> IF CanReset(e.x) THEN DoReset(e.x) ELSE UNCHANGED lvars
    [] e.k = "before" -> IF CanBefore(e.x) THEN DoBefore(e.x) ELSE UNCHANGED lvars
    [] e.k = "value" -> IF CanValue(e.x) THEN DoValue(e.x) ELSE UNCHANGED lvars
    [] e.k = "solve" -> IF CanSolve THEN DoSolve ELSE UNCHANGED lvars
    [] e.k = "after" -> IF CanAfter(e.x) THEN DoAfter(e.x) ELSE UNCHANGED lvars
    [] e.k = "finish" -> IF CanFinish(e.x) THEN DoFinish(e.x) ELSE UNCHANGED lvars
    [] e.k = "fail" -> IF CanFail THEN DoFail ELSE UNCHANGED lvars
    [] e.k = "return" -> IF CanReturn THEN DoReturn ELSE UNCHANGED lvars
    [] e.k = "change" -> DoChange(e.n)
    [] OTHER -> UNCHANGED lvars
TNext == /\ l < Len(Cases[c].ev)
         /\ l' = l + 1 /\ c' = c
         /\ LET e == Cases[c].ev[l + 1] IN Act(e) /\ Report(c, l', Failed(Clauses(e)))
TSpec == TInit /\ [][TNext]_<<c, l, lvars>>
===============================================================================
