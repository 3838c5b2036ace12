-------------------------------- MODULE Memory --------------------------------
(* What parameters and nodes remember of flows.  h is the history of a quantity in this run, oldest first: h[t + 1] is the value
   of timestep t; the value asked for is the one at the next timestep, t = Len(h).                                              *)
EXTENDS Integers, Sequences
Delayed(h, n, init) == IF Len(h) < n THEN init ELSE h[Len(h) - n + 1]
Previous(h, init) == Delayed(h, 1, init)
RECURSIVE SumLast(_, _)
SumLast(h, k) == IF k = 0 \/ h = <<>> THEN 0 ELSE h[Len(h)] + SumLast(SubSeq(h, 1, Len(h) - 1), k - 1)
Span(h, n) == IF Len(h) < n THEN Len(h) ELSE n
\* the mean of the last n values (as sum and count), the initial value if there is none
MeanSum(h, n, init) == IF h = <<>> THEN init ELSE SumLast(h, n)
MeanCount(h, n) == IF h = <<>> THEN 1 ELSE Span(h, n)
===============================================================================
