-------------------------------- MODULE Linked --------------------------------
(* Models run together: in every timestep each model takes its turn, in the       *)
(* order declared.  A link copies, for each scenario, a quantity of one model     *)
(* (a flow, a volume, the value of a parameter) to another one; the reader sees    *)
(* what the quantity is when the reader takes its turn - the value of the same    *)
(* timestep of a model before it, of the preceding timestep of a model after it,  *)
(* and at first the state the other model starts with.                              *)
EXTENDS Integers, Sequences
CONSTANTS Models(_),    \* of a world w: how many models there are
          Times(_),     \* of a world: for each model its timesteps, <<start, length>> each
          Scens(_),     \* of a world: for each model its combinations of scenarios
          Links(_)      \* of a world: sequence of [from, to] (models)
VARIABLES w,         \* the world
          running,
          step,      \* the timestep in progress
          turn,      \* the model to go next
          cur        \* for each link what the quantity is now
lvars == <<w, running, step, turn, cur>>
LInit(w0) == w = w0 /\ running = FALSE /\ step = 0 /\ turn = 1 /\ cur = <<>>
Coincide == \A m \in 1..Models(w) : Times(w)[m] = Times(w)[1] /\ Scens(w)[m] = Scens(w)[1]
N == Len(Times(w)[1])
CanStart == Coincide
\* init: the quantities before the first timestep
Start(init) == running' = TRUE /\ step' = 1 /\ turn' = 1 /\ cur' = init /\ w' = w
\* a run of models that do not fit together is refused
CanRefuse == ~Coincide
Refuse == running' = FALSE /\ UNCHANGED <<w, step, turn, cur>>
InLinks(m) == {k \in 1..Len(Links(w)) : Links(w)[k].to = m}
OutLinks(m) == {k \in 1..Len(Links(w)) : Links(w)[k].from = m}
CanTurn(m) == running /\ step <= N /\ turn = m
\* what model m reads through link k
Read(k) == cur[k]
\* outs: for each link (out of m) what the quantity is after the turn of m
Turn(m, outs) == /\ cur' = [k \in 1..Len(Links(w)) |-> IF k \in OutLinks(m) THEN outs[k] ELSE cur[k]]
                 /\ turn' = (IF m = Models(w) THEN 1 ELSE m + 1)
                 /\ step' = (IF m = Models(w) THEN step + 1 ELSE step)
                 /\ UNCHANGED <<w, running>>
CanEnd == running /\ step = N + 1 /\ turn = 1
End == running' = FALSE /\ UNCHANGED <<w, step, turn, cur>>
================================================================================
