------------------------------- MODULE MCRecord -------------------------------
(* Recorders that keep a little state, against what they are meant to give over the whole history, over a run and a rerun. *)
EXTENDS Record, TLC
CONSTANTS Values, Steps, Window_
VARIABLES hist, total, least, latch, count, ring, pos, run
vars == <<hist, total, least, latch, count, ring, pos, run>>
V == {v * 500 : v \in Values}
T == 500
Empty == /\ hist = <<>> /\ total = 0 /\ least = 2000000 /\ latch = 0 /\ count = 0 /\ pos = 0 /\ run = 1
Init == Empty /\ ring = [i \in 1..Window_ |-> 9999]
Step(v) == /\ Len(hist) < Steps /\ hist' = Append(hist, v) /\ total' = total + v /\ least' = Lo2(least, v)
           /\ latch' = (IF v <= T THEN 1 ELSE latch) /\ count' = count + (IF v <= T THEN 1 ELSE 0)
           /\ ring' = [ring EXCEPT ![pos + 1] = v] /\ pos' = (pos + 1) % Window_ /\ run' = run
\* the ring is not emptied: only what the run stored may be used
Rerun == run = 1 /\ hist # <<>> /\ run' = 2 /\ hist' = <<>> /\ total' = 0 /\ least' = 2000000 /\ latch' = 0 /\ count' = 0 /\ pos' = 0 /\ ring' = ring
Next == (\E v \in V : Step(v)) \/ Rerun
Spec == Init /\ [][Next]_vars
n == Len(hist)
Held == IF n <= Window_ THEN SubSeq(ring, 1, n) ELSE ring
Incremental == n > 0 => total = Total(hist) /\ least = Least(hist) /\ (latch = 1) = (Least(hist) <= T) /\ count = UpTo(hist, T)
RingIsWindow == n > 0 => Mean(Held) = Mean(Window(hist, Window_)) /\ Percentile(Held, 50) = Percentile(Window(hist, Window_), 50) /\ Most(Held) = Most(Window(hist, Window_))
Percentiles == n > 0 => /\ Percentile(hist, 0) = Least(hist) /\ Percentile(hist, 100) = Most(hist)
                        /\ \A p, q \in {0, 10, 25, 50, 75, 90, 100} : p <= q => Percentile(hist, p) <= Percentile(hist, q)
                        /\ Least(hist) <= Mean(hist) /\ Mean(hist) <= Most(hist)
Scores == n > 0 => \A s \in V : LET S(k) == OfScore(hist, s, k) IN S("strict") <= S("mean") /\ S("mean") <= S("rank") /\ S("rank") <= S("weak") + 1 /\ S("weak") <= 100000
Order == n > 0 => \A i, j \in 1..n : Agg([fn |-> "percentile", p |-> 25, kind |-> ""], hist, FALSE) = Agg([fn |-> "percentile", p |-> 25, kind |-> ""], [hist EXCEPT ![i] = hist[j], ![j] = hist[i]], FALSE)
Gaps == n > 0 => /\ Agg([fn |-> "sum", p |-> 0, kind |-> ""], hist \o <<Gap>>, TRUE) = total /\ Agg([fn |-> "sum", p |-> 0, kind |-> ""], hist \o <<Gap>>, FALSE) = Gap
ASSUME \A pc, cc \in {0, 250, 500, 1000} : LET x == Normalised(1000 * pc, cc) IN x >= -1000 /\ x <= 1000 /\ (pc = 1000 => x = 1000) /\ (pc = cc /\ cc < 1000 => x = 0) /\ (pc = 0 /\ cc > 0 => x = -1000)
===============================================================================
