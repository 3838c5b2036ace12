------------------------------ MODULE MCOptimise ------------------------------
(* Histories of evaluations by several users of a small problem.                    *)
EXTENDS Optimise, TLC
CONSTANTS Grid, Limits, MaxLen
VARIABLES order, len, shared
MCGrid == {0, 400, 1500}
MCLimits == {-2000000001, 0, 1000}
V(d, i) == [d |-> d, i |-> i]
Start == <<V(<<500>>, <<>>), V(<<0>>, <<1000>>), V(<<400>>, <<>>)>>
Orders == {<<1, 2>>, <<2, 1>>}
Vectors(n) == [1..n -> Grid]
MCInit == /\ start = Start /\ mem = [u \in Users |-> Start] /\ bounds = <<[lo |-> Gap, hi |-> Gap]>> /\ said = "ok"
          /\ order \in Orders /\ len = 0 /\ shared \in {("a" :> "a") @@ ("b" :> "b"), ("a" :> "a") @@ ("b" :> "a")}
MCNext == /\ len < MaxLen /\ len' = len + 1 /\ UNCHANGED <<order, shared>>
          /\ \/ \E u \in Users, x \in Vectors(3) : Assign(Holder(u, shared), order, x)
             \/ \E u \in Users, x \in Grid : SetReal(Holder(u, shared), 1, <<x>>)
             \/ \E u \in Users, x \in Grid : SetWhole(Holder(u, shared), 2, <<Whole(x)>>)
             \/ Clear
             \/ \E v \in Limits : SetLower(1, v) \/ SetUpper(1, v)
MCSpec == MCInit /\ [][MCNext]_<<OVars, order, len, shared>>
\* what is set is read back, in the same places
RoundTrip == \A x \in Vectors(3) : LET m == Assigned(mem["a"], order, x)  y == Vector(m, order) IN
   /\ Len(y) = Length(Sizes(Sorted(m, order)))
   /\ \A i \in 1..3 : y[i] = (IF i = (IF order = <<1, 2>> THEN 3 ELSE 2) THEN Whole(x[i]) ELSE x[i])
   /\ m[3] = mem["a"][3]
   /\ Assigned(m, order, y) = m
InOrder == bounds[1].lo # Gap /\ bounds[1].hi # Gap => bounds[1].lo <= bounds[1].hi
\* both optimisers find feasible what does not violate the bounds
Agree == \A v \in Grid \cup Limits : LET b == bounds[1] IN IsConstraint(b) =>
   /\ Broken(v, b) = ~(\A i \in 1..Len(POps(b)) : PHolds(POps(b)[i], PVals(b, v)[i]))
   /\ Broken(v, b) = ~GFeasible(GEq(b, v), GIneq(b, v))
   /\ Len(GEq(b, v)) + Len(GIneq(b, v)) = Len(POps(b)) /\ Equality(b) = (GEq(b, v) # <<>>) /\ Double(b) = (Len(GIneq(b, v)) = 2)
\* whatever one does, others who do not share are not affected
Apart == [][(mem' # mem /\ mem' # [u \in Users |-> start]) => \E u \in Users : \A w \in Users \ {u} : mem'[w] = mem[w]]_<<OVars, order, len, shared>>
================================================================================
