------------------------------- MODULE Lifecycle -------------------------------
(* The phases of a simulation as its components (nodes, parameters, recorders)   *)
(* see them.  A component is an integer; cfg gives the set of all components     *)
(* (all), those that have a value (vals), the dependencies <<x, y>> (x needs y)  *)
(* and n, the number of timesteps.                                               *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES cfg,
          dirty,     \* set up is needed before the next step
          pos,       \* timesteps consumed since the last reset
          op,        \* the API call being served: "none", "setup", "reset", "step", "run"
          phase,     \* "idle", "setup", "reset", "before", "after", "finish", "return"
          pend,      \* components the phase has not served yet
          pendv,     \* values not yet computed in this timestep
          failed,
          cnt        \* [setup, reset, finish |-> calls per component since the API call began] (history)
lvars == <<cfg, dirty, pos, op, phase, pend, pendv, failed, cnt>>

Zero == [x \in cfg.all |-> 0]
DepsOf(x) == {d[2] : d \in {e \in cfg.deps : e[1] = x}}

InitWith(c) ==
  /\ cfg = c /\ dirty = TRUE /\ pos = 0 /\ op = "none" /\ phase = "idle"
  /\ pend = {} /\ pendv = {} /\ failed = FALSE
  /\ cnt = [setup |-> [x \in c.all |-> 0], reset |-> [x \in c.all |-> 0], finish |-> [x \in c.all |-> 0]]

(* entering a timestep: the clock advances, then everything is to be prepared *)
BeginStep == /\ phase' = "before" /\ pend' = cfg.all /\ pendv' = cfg.vals /\ pos' = pos + 1

Enter(p) == /\ phase' = p /\ pend' = cfg.all /\ UNCHANGED <<pendv, pos>>
Rest == /\ phase' = "return" /\ pend' = {} /\ UNCHANGED <<pendv, pos>>

Call(o) ==
  /\ phase = "idle"
  /\ o = "step" => (dirty \/ pos < cfg.n)
  /\ op' = o /\ failed' = FALSE
  /\ cnt' = [setup |-> Zero, reset |-> Zero, finish |-> Zero]
  /\ IF o = "setup" \/ (o \in {"run", "step"} /\ dirty)
       THEN /\ phase' = "setup" /\ pend' = cfg.all /\ pendv' = pendv /\ pos' = 0
       ELSE IF o \in {"reset", "run"} THEN phase' = "reset" /\ pend' = cfg.all /\ pendv' = pendv /\ pos' = 0
       ELSE BeginStep
  /\ UNCHANGED <<cfg, dirty>>

Bump(f, x) == cnt' = [cnt EXCEPT ![f] = [@ EXCEPT ![x] = @ + 1]]

CanSetup(x) == phase = "setup" /\ x \in pend
DoSetup(x) ==
  /\ Bump("setup", x)
  /\ IF pend = {x} THEN Enter("reset") ELSE phase' = phase /\ pend' = pend \ {x} /\ UNCHANGED <<pendv, pos>>
  /\ UNCHANGED <<cfg, dirty, op, failed>>

CanReset(x) == phase = "reset" /\ x \in pend
DoReset(x) ==
  /\ Bump("reset", x)
  /\ IF pend = {x}
       THEN /\ dirty' = (dirty /\ op = "reset")      \* a mere reset does not set up
            /\ IF op \in {"run", "step"} THEN BeginStep ELSE Rest
       ELSE /\ phase' = phase /\ pend' = pend \ {x} /\ UNCHANGED <<pendv, pos, dirty>>
  /\ UNCHANGED <<cfg, op, failed>>

CanBefore(x) == phase = "before" /\ x \in pend
DoBefore(x) == /\ pend' = pend \ {x} /\ UNCHANGED <<cfg, dirty, pos, op, phase, pendv, failed, cnt>>
CanValue(x) == phase = "before" /\ x \in pendv /\ x \notin pend
DoValue(x) == /\ pendv' = pendv \ {x} /\ UNCHANGED <<cfg, dirty, pos, op, phase, pend, failed, cnt>>
CanSolve == phase = "before" /\ pend = {} /\ pendv = {}
DoSolve == /\ phase' = "after" /\ pend' = cfg.all /\ UNCHANGED <<cfg, dirty, pos, op, pendv, failed, cnt>>
CanAfter(x) == phase = "after" /\ x \in pend
DoAfter(x) ==
  /\ IF pend = {x}
       THEN IF op = "run" THEN IF pos < cfg.n THEN BeginStep ELSE Enter("finish")
            ELSE Rest
       ELSE phase' = phase /\ pend' = pend \ {x} /\ UNCHANGED <<pendv, pos>>
  /\ UNCHANGED <<cfg, dirty, op, failed, cnt>>
CanFinish(x) == phase = "finish" /\ x \in pend
DoFinish(x) ==
  /\ Bump("finish", x)
  /\ IF pend = {x} THEN Rest ELSE phase' = phase /\ pend' = pend \ {x} /\ UNCHANGED <<pendv, pos>>
  /\ UNCHANGED <<cfg, dirty, op, failed>>

\* something raises inside a timestep: a run is finished, a single step just ends
CanFail == phase \in {"before", "after"}
DoFail ==
  /\ failed' = TRUE
  /\ IF op = "run" THEN Enter("finish") ELSE Rest
  /\ UNCHANGED <<cfg, dirty, op, cnt>>

CanReturn == phase = "return"
DoReturn == /\ phase' = "idle" /\ op' = "none" /\ UNCHANGED <<cfg, dirty, pos, pend, pendv, failed, cnt>>

\* the user changes the period or the network: everything is set up again before the next step
CanChange == phase = "idle"
DoChange(n) == /\ cfg' = [cfg EXCEPT !.n = n] /\ dirty' = TRUE /\ UNCHANGED <<pos, op, phase, pend, pendv, failed, cnt>>

\* an order in which a component is served after everything it depends on
OrderOK(x) == phase \in {"reset", "before", "after", "finish"} => DepsOf(x) \cap pend = {}
ValueOrderOK(x) == DepsOf(x) \cap pendv = {}
================================================================================
