-------------------------------- MODULE Rerun --------------------------------
(* What the user's calls on a model may show: everything observed in timestep i  *)
(* of a run is a function of the inputs of that run alone - Ref(k, c) is what a      *)
(* freshly built model shows for inputs c, a sequence of one row per timestep.    *)
(* A call history changes inputs, resets, steps and runs.                         *)
EXTENDS Integers, Sequences
CONSTANT Ref(_, _)   \* of a model k and inputs c
VARIABLES k,       \* the model
          c,       \* the inputs in force
          stale,   \* the period or the scenarios were changed: the next step starts afresh
          pos      \* timesteps done since the start
rvars == <<k, c, stale, pos>>
RInit(k0, c0) == k = k0 /\ c = c0 /\ stale = TRUE /\ pos = 0
N == Len(Ref(k, c).rows)
\* period: the new inputs have another period or other scenarios
Change(d, period) == c' = d /\ stale' = (stale \/ period) /\ pos' = pos /\ k' = k
CanReset == ~stale
Reset == pos' = 0 /\ UNCHANGED <<k, c, stale>>
CanStep == stale \/ pos < N
NextPos == IF stale THEN 1 ELSE pos + 1
StepRow == Ref(k, c).rows[NextPos]
Step == pos' = NextPos /\ stale' = FALSE /\ c' = c /\ k' = k
RunRows == Ref(k, c).rows
Run == pos' = N /\ stale' = FALSE /\ c' = c /\ k' = k
CanFinish == pos = N
Final == Ref(k, c).final
================================================================================
