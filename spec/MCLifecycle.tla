----------------------------- MODULE MCLifecycle -----------------------------
EXTENDS Lifecycle
CONSTANTS MaxCalls
VARIABLES calls, step   \* step: what the components saw in the current timestep (history)
mv == <<lvars, calls, step>>
C0 == [all |-> {1, 2, 3}, vals |-> {2, 3}, deps |-> {<<2, 3>>, <<1, 2>>}, n |-> 2]
NoStep == [before |-> {}, value |-> {}, after |-> {}, solved |-> 0]
Init == InitWith(C0) /\ calls = 0 /\ step = NoStep
New(s) == IF pos' # pos THEN NoStep ELSE s
Next ==
  \/ \E o \in {"setup", "reset", "step", "run"} : Call(o) /\ calls < MaxCalls /\ calls' = calls + 1 /\ step' = New(step)
  \/ \E x \in cfg.all :
       \/ CanSetup(x) /\ DoSetup(x) /\ UNCHANGED calls /\ step' = New(step)
       \/ CanReset(x) /\ OrderOK(x) /\ DoReset(x) /\ UNCHANGED calls /\ step' = New(step)
       \/ CanBefore(x) /\ OrderOK(x) /\ DoBefore(x) /\ UNCHANGED calls /\ step' = [step EXCEPT !.before = @ \cup {x}]
       \/ CanValue(x) /\ ValueOrderOK(x) /\ DoValue(x) /\ UNCHANGED calls /\ step' = [step EXCEPT !.value = @ \cup {x}]
       \/ CanAfter(x) /\ OrderOK(x) /\ DoAfter(x) /\ UNCHANGED calls /\ step' = New([step EXCEPT !.after = @ \cup {x}])
       \/ CanFinish(x) /\ OrderOK(x) /\ DoFinish(x) /\ UNCHANGED calls /\ step' = step
  \/ CanSolve /\ DoSolve /\ UNCHANGED calls /\ step' = [step EXCEPT !.solved = @ + 1]
  \/ CanFail /\ DoFail /\ UNCHANGED calls /\ step' = step
  \/ CanReturn /\ DoReturn /\ UNCHANGED calls /\ step' = step
  \/ CanChange /\ calls < MaxCalls /\ calls' = calls + 1 /\ DoChange(3 - cfg.n) /\ step' = step
Spec == Init /\ [][Next]_mv /\ WF_mv(Next)
\* allocation only when everything was prepared; after only when allocated
SolveAfterBefore == phase = "after" => step.solved = 1 /\ step.before = cfg.all /\ step.value = cfg.vals
OnceEach ==
  phase = "return" =>
    /\ op \in {"run", "reset", "setup"} => \A x \in cfg.all : cnt.reset[x] = 1
    /\ op = "run" => \A x \in cfg.all : cnt.finish[x] = 1
    /\ op # "run" => \A x \in cfg.all : cnt.finish[x] = 0
    /\ \A x \in cfg.all : cnt.setup[x] <= 1 /\ cnt.setup[x] = cnt.setup[1]
    /\ op = "run" /\ ~failed => pos = cfg.n
Ready == phase \in {"before", "after"} => ~dirty
Deadlockless == phase # "idle" => ENABLED Next
CallsReturn == (phase # "idle") ~> (phase = "idle")
==============================================================================
