------------------------------- MODULE MCMemory -------------------------------
(* A ring of n slots read before it is written gives the value of n steps earlier; a ring of n slots with a count of the slots
   written gives the mean of the last n.  Runs may be ended and started again at any point. *)
EXTENDS Memory, TLC
CONSTANTS MaxN, Depth
VARIABLES n, init, ring, ptr, cnt, h, runs
vars == <<n, init, ring, ptr, cnt, h, runs>>
Vals == 0..2
Clear == ring' = [i \in 0..(n - 1) |-> init] /\ ptr' = 0 /\ cnt' = 0 /\ h' = <<>>
Init == n \in 1..MaxN /\ init \in {0, 2} /\ ring = [i \in 0..(n - 1) |-> init] /\ ptr = 0 /\ cnt = 0 /\ h = <<>> /\ runs = 1
Step == /\ Len(h) < Depth
        /\ \E v \in Vals : ring' = [ring EXCEPT ![ptr] = v] /\ h' = Append(h, v)
        /\ ptr' = (ptr + 1) % n /\ cnt' = (IF cnt < n THEN cnt + 1 ELSE n) /\ UNCHANGED <<n, init, runs>>
Again == runs < 2 /\ runs' = runs + 1 /\ Clear /\ UNCHANGED <<n, init>>
Next == Step \/ Again
Spec == Init /\ [][Next]_vars
RECURSIVE RingSum(_)
RingSum(k) == IF k = 0 THEN 0 ELSE ring[k - 1] + RingSum(k - 1)
Delay == ring[ptr] = Delayed(h, n, init)
Mean == cnt = Span(h, n) /\ (cnt > 0 => RingSum(cnt) = MeanSum(h, n, init))
===============================================================================
