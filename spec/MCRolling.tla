------------------------------- MODULE MCRolling -------------------------------
(* A ring of n - 1 uses returning each use when it is overwritten keeps the volume at the maximum minus the use of the preceding
   n - 1 timesteps, so that no n consecutive timesteps use more than the maximum. *)
EXTENDS Virtual, TLC
CONSTANTS Mx, Depth
VARIABLES n, init, ring, ptr, vol, h
vars == <<n, init, ring, ptr, vol, h>>
\* initial volumes that spread evenly
Init == /\ n \in 2..4 /\ init \in {x \in 0..Mx : (Mx - x) % (n - 1) = 0}
        /\ ring = [i \in 0..(n - 2) |-> (Mx - init) \div (n - 1)] /\ ptr = 0 /\ vol = init /\ h = <<>>
Next == /\ Len(h) < Depth
        /\ \E u \in 0..vol : /\ vol' = vol - u + ring[ptr] /\ ring' = [ring EXCEPT ![ptr] = u] /\ h' = Append(h, u)
        /\ ptr' = (ptr + 1) % (n - 1) /\ UNCHANGED <<n, init>>
Spec == Init /\ [][Next]_vars
Holds == vol = Held(n, Mx, init, h)
Window == Len(h) >= n => SumLast(h, n) <= Mx
===============================================================================
