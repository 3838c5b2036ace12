-------------------------------- MODULE Events --------------------------------
(* Events: the maximal stretches of steps at which a trigger is on, of at least a minimum length. *)
EXTENDS Integers, Sequences, FiniteSets
Whole(on, i, j) == \A k \in i..j : on[k]
Maximal(on, i, j) == (i = 1 \/ ~on[i - 1]) /\ (j = Len(on) \/ ~on[j + 1])
\* pairs of first and last step
Events(on, least) == {<<i, j>> \in (1..Len(on)) \X (1..Len(on)) : i <= j /\ j - i + 1 >= least /\ Whole(on, i, j) /\ Maximal(on, i, j)}
===============================================================================
