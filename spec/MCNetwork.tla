------------------------------ MODULE MCNetwork ------------------------------
(* Tiny networks with every combination of small limits, solved by enumerating all integer allocations (whole numbers
   suffice: these matrices are totally unimodular).  Checks that certificates are sound and complete, and that priorities are
   respected; prints every instance with its best cost and (if unique) its allocation for replay on the real solvers. *)
EXTENDS Network, TLC, Json
CONSTANTS Topos
VARIABLES t, d, best, sols
Net(k, e) == [kind |-> k, edges |-> e, vs |-> <<>>, agg |-> <<>>, conv |-> <<>>]
Topo == <<
  Net(<<"in", "out">>, <<<<1, 2>>>>),
  Net(<<"in", "out", "out">>, <<<<1, 2>>, <<1, 3>>>>),
  Net(<<"in", "link", "out", "out">>, <<<<1, 2>>, <<2, 3>>, <<2, 4>>>>),
  Net(<<"in", "in", "out">>, <<<<1, 3>>, <<2, 3>>>>),
  Net(<<"in", "sto", "out">>, <<<<1, 2>>, <<2, 3>>>>),
  Net(<<"in", "link", "sto", "out", "out">>, <<<<1, 2>>, <<2, 3>>, <<2, 4>>, <<3, 5>>>>),
  Net(<<"in", "in", "link", "out", "out">>, <<<<1, 3>>, <<2, 3>>, <<3, 4>>, <<2, 5>>>>),
  Net(<<"sto", "sto", "link", "out">>, <<<<1, 3>>, <<2, 3>>, <<3, 4>>>>)>>
KindsOf(n) == Topo[n].kind
Lims(k) == CASE k = "in" -> {<<0, 2>>, <<1, 3>>, <<2, 2>>, <<0, 0>>}
             [] k = "out" -> {<<0, 1>>, <<0, 3>>, <<2, 3>>}
             [] k = "link" -> {<<0, 2>>, <<1, NInf>>}
             [] OTHER -> {<<0, 0>>}
Stos(k) == IF k = "sto" THEN {<<-2, 1>>, <<0, 3>>} ELSE {<<0, 0>>}
\* costs are fixed by position so that both orders of priority and ties occur
CostSets(n) == LET ks == KindsOf(n) IN
  { [i \in 1..Len(ks) |-> CASE ks[i] = "out" -> (IF i % 2 = 0 THEN p ELSE q) [] ks[i] = "in" -> i [] ks[i] = "sto" -> s [] OTHER -> 1] : p \in {-3, -6}, q \in {-6, 2}, s \in {-2} }
Prod(sets) == { f \in [1..Len(sets) -> UNION {sets[i] : i \in 1..Len(sets)}] : \A i \in 1..Len(sets) : f[i] \in sets[i] }
Data(n) == LET ks == KindsOf(n) IN
  { [lo |-> [i \in 1..Len(ks) |-> l[i][1]], hi |-> [i \in 1..Len(ks) |-> l[i][2]], c |-> c,
     slo |-> [i \in 1..Len(ks) |-> s[i][1]], shi |-> [i \in 1..Len(ks) |-> s[i][2]], vhi |-> <<>>, glo |-> <<>>, ghi |-> <<>>, gf |-> <<>>] :
     l \in Prod([i \in 1..Len(ks) |-> Lims(ks[i])]), s \in Prod([i \in 1..Len(ks) |-> Stos(ks[i])]), c \in CostSets(n) }
MaxX == 3
All(n) == [1..Len(Topo[n].edges) -> 0..MaxX]
FeasSet(n, dd) == LET rs == Rows(Topo[n], dd) IN {x \in All(n) : Satisfies(rs, x)}
NF(n, x) == [i \in 1..Len(KindsOf(n)) |-> NodeFlow(Topo[n], x, i)]
Unsolved == NInf - 1
Init == t \in Topos /\ d \in Data(t) /\ best = Unsolved /\ sols = {}
Next == /\ best = Unsolved /\ UNCHANGED <<t, d>>
        /\ LET F == FeasSet(t, d)
               ec == [e \in 1..Len(Topo[t].edges) |-> EdgeCost(Topo[t], d, e)]
               CS == {Dot(ec, x) : x \in F}
           IN /\ best' = IF F = {} THEN NInf ELSE CHOOSE m \in CS : \A k \in CS : m <= k
              /\ sols' = {NF(t, x) : x \in {x \in F : Dot(ec, x) = best'}}
        /\ PrintT(<<"GEN", ToJson([topo |-> Topo[t], lo |-> d.lo, hi |-> d.hi, c |-> d.c, slo |-> d.slo, shi |-> d.shi, best |-> best',
                                   flows |-> IF Cardinality(sols') = 1 THEN CHOOSE s \in sols' : TRUE ELSE <<>>])>>)
Spec == Init /\ [][Next]_<<t, d, best, sols>>
Solved == best # Unsolved
\* the certificate rules against the enumeration, on the smallest networks: weak duality for every y tried, equality for some
Ys(n) == [1..Len(Rows(Topo[n], d)) -> {-7, -5, -4, -3, -2, 0, 1, 2}]
CertSound == Solved /\ t \in {1, 4} =>
  LET rs == Rows(Topo[t], d) OK == {y \in Ys(t) : DualBounded(rs, y) /\ \A e \in 1..Len(Topo[t].edges) : Reduced(Topo[t], d, rs, y, e, TRUE) >= 0}
  IN best # NInf => (\A y \in OK : DualObj(rs, y) <= best)
FarkasSound == Solved /\ t \in {1, 4} =>
  LET rs == Rows(Topo[t], d) IN
  (\E y \in [1..Len(rs) -> {-1, 0, 1}] : /\ DualBounded(rs, y) /\ DualObj(rs, y) > 0
     /\ \A e \in 1..Len(Topo[t].edges) : Reduced(Topo[t], d, rs, y, e, FALSE) >= 0) <=> (best = NInf)
\* a demand of lower priority is served only when the one of higher priority at the same place has all it may take
Priority == Solved /\ t \in {2, 3} =>
  LET o == OfKind(Topo[t], "out") IN
  \A s \in sols : \A i, j \in 1..2 : i # j /\ d.c[o[i]] < d.c[o[j]] /\ s[o[j]] > d.lo[o[j]] => s[o[i]] = d.hi[o[i]]
==============================================================================
