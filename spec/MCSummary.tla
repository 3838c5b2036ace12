------------------------------- MODULE MCSummary -------------------------------
(* A run of up to Steps timesteps over a few routes: progress is reported as it goes on, the flows of the routes are stored, and the stored
   flows are summarised in every way.                                                                                                      *)
EXTENDS Summary, TLC
CONSTANTS Steps, Routes, Flows, Nodes
VARIABLES n, i, last, said, flow, routes
vars == <<n, i, last, said, flow, routes>>
Id == [s |-> [x \in Nodes |-> x], e |-> [x \in Nodes |-> x]]
One == [s |-> [x \in Nodes |-> CHOOSE y \in Nodes : TRUE], e |-> [x \in Nodes |-> CHOOSE y \in Nodes : TRUE]]
Init == n \in 1..Steps /\ i = 0 /\ last = -1 /\ said = <<>> /\ flow = <<>> /\ routes \in [1..Routes -> Nodes \X Nodes]
Step == /\ i < n /\ i' = i + 1
        /\ \E f \in [1..Routes -> [1..2 -> Flows]] : flow' = Append(flow, f)
        /\ \E p \in Seen(i', n) : IF p > last THEN last' = p /\ said' = <<i', p>> ELSE UNCHANGED <<last, said>>
        /\ UNCHANGED <<n, routes>>
Next == Step
Spec == Init /\ [][Next]_vars
Times == [j \in 1..i |-> j]
Val(tagg, sagg) == [r \in 1..Routes |-> Amount(flow, r, Times, tagg, <<1, 2>>, sagg)]
Aggs == {"sum", "mean", "max", "min"}
Sum(L) == LET RECURSIVE S(_) S(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN x.value + S(X \ {x}) IN S(L)
\* never ahead of the truth, never more than a percent behind, and complete at the end
Honest == said # <<>> => said[2] * n <= 100 * said[1] /\ (said[2] + 2) * n > 100 * said[1] /\ said[2] = last
Fresh == i > 0 => said # <<>> /\ (last + 2) * n > 100 * i
Complete == i = n => said = <<n, 100>>
\* nothing is lost or counted twice, whatever the names
Conserved == i > 0 => \A a, b \in Aggs : LET v == Val(a, b) IN \A ren \in {Id, One} : Sum(Links(routes, ren, {}, FALSE, 0, v)) = Total(1..Routes, v)
Merged == i > 0 => Cardinality(Links(routes, One, {}, FALSE, 0, Val("sum", "sum"))) = 1
Distinct == i > 0 => LET L == Links(routes, Id, {}, FALSE, 0, Val("sum", "max")) IN \A x, y \in L : x.ends = y.ends => x = y
\* what is left out is what the caller asked to leave out
LeftOut == i > 0 => LET v == Val("max", "min") IN
  /\ \A drop \in SUBSET (1..Routes) : Sum(Links(routes, Id, drop, FALSE, 0, v)) = Total((1..Routes) \ drop, v)
  /\ \A x \in Links(routes, Id, {}, TRUE, 0, v) : x.ends[1] # x.ends[2]
  /\ \A t \in Flows : Links(routes, Id, {}, FALSE, t, v) = {x \in Links(routes, Id, {}, FALSE, 0, v) : x.value >= t}
Ordered == i > 0 => \A r \in 1..Routes : /\ Val("min", "min")[r] <= Val("mean", "mean")[r] /\ Val("mean", "mean")[r] <= Val("max", "max")[r] /\ Val("max", "max")[r] <= Val("sum", "sum")[r]
ASSUME /\ Setting(<<TRUE>>, <<"0">>) /\ ~Setting(<<FALSE>>, <<"1">>) /\ Setting(<<>>, <<"True">>) /\ ~Setting(<<>>, <<"yes">>) /\ ~Setting(<<>>, <<>>)
================================================================================
