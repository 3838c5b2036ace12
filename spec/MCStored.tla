------------------------------- MODULE MCStored -------------------------------
(* Runs of a recorder which writes in blocks, begun at any index, ended or broken off after any step, and begun again in the same file. *)
EXTENDS Stored, TLC
CONSTANTS Horizon, Blocks, Runs
VARIABLES block, run, first, next, wait, file, before, times, open
vars == <<block, run, first, next, wait, file, before, times, open>>
Init == /\ block \in Blocks /\ run = 0 /\ first = 0 /\ next = 0 /\ wait = <<>> /\ file = [i \in 0..(Horizon - 1) |-> 0] /\ before = file /\ times = <<>> /\ open = FALSE
Begin == /\ run < Runs /\ run' = run + 1 /\ \E f \in 0..(Horizon - 1) : first' = f /\ next' = f
         /\ wait' = <<>> /\ times' = <<>> /\ before' = file /\ open' = TRUE /\ UNCHANGED <<block, file>>
Step == /\ open /\ next < Horizon /\ next' = next + 1 /\ times' = Append(times, next)
        /\ LET w == Append(wait, <<next, run>>) IN
           IF Len(w) = block THEN file' = Put(file, w) /\ wait' = <<>> ELSE wait' = w /\ file' = file
        /\ UNCHANGED <<block, run, first, before, open>>
Finish == open /\ open' = FALSE /\ file' = Put(file, wait) /\ wait' = <<>> /\ UNCHANGED <<block, run, first, next, before, times>>
Next == Begin \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Done == run > 0 /\ ~open
Complete == Done => \A i \in first..(next - 1) : file[i] = run
OneRowEach == times = [k \in 1..(next - first) |-> first + k - 1]
Untouched == Done => \A i \in DOMAIN file : i \notin first..(next - 1) => file[i] = before[i]
NeverAhead == open => \A i \in DOMAIN file : file[i] = run => i \in first..(next - 1)
Small == Len(wait) < block
===============================================================================
