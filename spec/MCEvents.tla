------------------------------- MODULE MCEvents -------------------------------
(* Following triggers step by step in several scenarios, with runs ended at any step and begun again. *)
EXTENDS Events, TLC
CONSTANTS Scens, Horizon, Lengths
VARIABLES least, n, open, list, hist, done, run
vars == <<least, n, open, list, hist, done, run>>
Init == least \in Lengths /\ n = 0 /\ open = [s \in Scens |-> 0] /\ list = {} /\ hist = [s \in Scens |-> <<>>] /\ done = FALSE /\ run = 1
\* an event in hand ends before the first step at which its trigger is off
Step(on) ==
  /\ ~done /\ n < Horizon /\ n' = n + 1
  /\ open' = [s \in Scens |-> IF ~on[s] THEN 0 ELSE IF open[s] = 0 THEN n + 1 ELSE open[s]]
  /\ list' = list \cup {<<s, <<open[s], n>> >> : s \in {x \in Scens : ~on[x] /\ open[x] # 0 /\ n + 1 - open[x] >= least}}
  /\ hist' = [s \in Scens |-> Append(hist[s], on[s])] /\ UNCHANGED <<least, done, run>>
Finish ==
  /\ ~done /\ n > 0 /\ done' = TRUE
  /\ list' = list \cup {<<s, <<open[s], n>> >> : s \in {x \in Scens : open[x] # 0 /\ n + 1 - open[x] >= least}}
  /\ open' = [s \in Scens |-> 0] /\ UNCHANGED <<least, n, hist, run>>
Reset == run = 1 /\ n > 0 /\ run' = 2 /\ n' = 0 /\ open' = [s \in Scens |-> 0] /\ list' = {} /\ hist' = [s \in Scens |-> <<>>] /\ done' = FALSE /\ least' = least
Next == Finish \/ Reset \/ \E on \in [Scens -> BOOLEAN] : Step(on)
Spec == Init /\ [][Next]_vars
Right == done => list = {<<s, e>> : s \in Scens, e \in {<<i, j>> : i, j \in 0..Horizon}} \cap UNION {{<<s, e>> : e \in Events(hist[s], least)} : s \in Scens}
Apart == done => \A x, y \in list : x[1] = y[1] /\ x # y => x[2][2] + 1 < y[2][1] \/ y[2][2] + 1 < x[2][1]
Sound == \A x \in list : Whole(hist[x[1]], x[2][1], x[2][2]) /\ x[2][2] - x[2][1] + 1 >= least
===============================================================================
