----------------------------- MODULE MCScenarios -----------------------------
(* every set of up to two scenarios of at most three ensembles with every slice,  *)
(* checked, and printed for replay on the real scenario collection                *)
EXTENDS Scenarios, FiniteSets, TLC, Json
VARIABLES sizes, slices, done
Ends == {NONE, -4, -3, -2, -1, 0, 1, 2, 3, 4}
Slices == [a : {NONE, -2, -1, 0, 1, 2}, b : {NONE, -1, 0, 1, 2, 3, 4}, st : {NONE, 1, 2, -1}]
All == [a |-> NONE, b |-> NONE, st |-> NONE]
Init == /\ sizes \in {<<>>} \cup {<<n>> : n \in 1..4} \cup {<<n, m>> : n \in 1..3, m \in 1..3}
        /\ slices \in (IF Len(sizes) = 0 THEN {<<>>} ELSE IF Len(sizes) = 1 THEN {<<s>> : s \in Slices}
                       ELSE {<<s, t>> : s \in {x \in Slices : x.st \in {NONE, -1}}, t \in {All, [a |-> 1, b |-> NONE, st |-> NONE], [a |-> NONE, b |-> NONE, st |-> -1], [a |-> 0, b |-> 1, st |-> 1]}})
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<sizes, slices>> /\ PrintT(<<"GEN", ToJson([sizes |-> sizes, slices |-> slices])>>)
Spec == Init /\ [][Next]_<<sizes, slices, done>>
C == Combos(sizes, slices, <<>>)
Sh == Shape(sizes, slices, <<>>)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* every combination once, each within the ensembles, and exactly those whose parts are selected
Exact == /\ Len(C) = Prod(Sh)
         /\ Cardinality({C[i] : i \in 1..Len(C)}) = Len(C)
         /\ \A i \in 1..Len(C) : sizes # <<>> => \A j \in 1..Len(sizes) : C[i][j] \in 0..(sizes[j] - 1)
\* ordered: the first scenario varies slowest
Ordered == \A i \in 1..(Len(C) - 1) : sizes # <<>> /\ (\A j \in 1..Len(sizes) : slices[j].st # -1) =>
              \E j \in 1..Len(sizes) : C[i][j] < C[i + 1][j] /\ \A k \in 1..(j - 1) : C[i][k] = C[i + 1][k]
==============================================================================
