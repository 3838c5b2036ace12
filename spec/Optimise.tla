------------------------------- MODULE Optimise -------------------------------
(* Optimisation: a model has variables (parameters with a number of real and whole  *)
(* values), and recorders which may be objectives or constraints.  An optimiser     *)
(* sees them through a wrapper as one vector, bounds, a vector of objectives and a  *)
(* vector of constraints.  Numbers are in thousandths.                              *)
(*                                                                                  *)
(* Wrappers of one document keep a model each, unless they are told to share one;   *)
(* `mem' has the values of the variables in each of these models, and `start' those *)
(* of the document.                                                                 *)
EXTENDS Record
CONSTANTS Users
VARIABLES start, mem, bounds, said
OVars == <<start, mem, bounds, said>>
\* ------------------------------------------------ the vector
\* sizes: how many real and whole values each variable has, in the order of the vector
RECURSIVE Before(_, _)
Before(sizes, j) == IF j = 1 THEN 0 ELSE Before(sizes, j - 1) + sizes[j - 1].d + sizes[j - 1].i
Length(sizes) == Before(sizes, Len(sizes) + 1)
Whole(x) == 1000 * R(x, 1000)
Slice(sizes, x, j) == LET at == Before(sizes, j) IN
  [d |-> [i \in 1..sizes[j].d |-> x[at + i]], i |-> [i \in 1..sizes[j].i |-> Whole(x[at + sizes[j].d + i])]]
RECURSIVE Join(_)
Join(s) == IF s = <<>> THEN <<>> ELSE s[1].d \o s[1].i \o Join(Tail(s))
Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
\* ------------------------------------------------ what variables do
Scaled(a, b) == R(a * b, 1000)
\* (kinds without an entry are compared with models built with the values)
Formula(p) == p.kind \in {"constant", "binary", "rectifier", "offset", "monthly", "control"}
Value(p, v, month, band) ==
  CASE p.kind = "constant" -> p.a[1] + Scaled(v.d[1], p.a[2])
    [] p.kind = "binary" -> IF v.d[1] <= 0 THEN 0 ELSE p.a[1]
    [] p.kind = "rectifier" -> IF v.d[1] <= 0 THEN 0 ELSE p.a[1] + R((p.a[2] - p.a[1]) * (v.d[1] \div 5), p.a[3] \div 5)
    [] p.kind = "offset" -> p.a[1] + v.d[1]
    [] p.kind = "monthly" -> v.d[month]
    \* some of the values of a control curve are variable
    [] p.kind = "control" -> IF \E i \in 1..Len(p.at) : p.at[i] = band THEN v.d[CHOOSE i \in 1..Len(p.at) : p.at[i] = band] ELSE p.a[band + 1]
\* ------------------------------------------------ objectives and constraints
Minimise == {"minimise", "minimize", "min"}
Sign(r) == IF r.obj \in Minimise THEN 1 ELSE -1
IsObjective(r) == r.obj # ""
Lower(b) == b.lo # Gap
Upper(b) == b.hi # Gap
IsConstraint(b) == Lower(b) \/ Upper(b)
Equality(b) == Lower(b) /\ Upper(b) /\ b.lo = b.hi
Double(b) == Lower(b) /\ Upper(b) /\ b.lo # b.hi
Aggregated(r, xs) == Agg([fn |-> r.fn], xs, r.ignore)
\* a value is inside the bounds or the constraint is violated; there is no value inside if there is none
Broken(v, b) == v = Gap \/ Violated(v, b.lo, b.hi)
Neg(x) == IF x = Gap THEN Gap ELSE 0 - x
Diff(x, y) == IF x = Gap THEN Gap ELSE x - y
Objective(r, v) == IF Sign(r) = 1 THEN v ELSE Neg(v)
\* one wrapper gives values for bounds which its problem has ...
POps(b) == (IF Equality(b) THEN <<<<"==", b.lo>>>> ELSE (IF Lower(b) THEN <<<<">=", b.lo>>>> ELSE <<>>) \o (IF Upper(b) THEN <<<<"<=", b.hi>>>> ELSE <<>>))
PVals(b, v) == [i \in 1..Len(POps(b)) |-> v]
PHolds(o, v) == v # Gap /\ (CASE o[1] = "==" -> v = o[2] [] o[1] = ">=" -> v >= o[2] [] o[1] = "<=" -> v <= o[2])
\* ... the other what has to be zero, and what must not be positive
GEq(b, v) == IF Equality(b) THEN <<Diff(v, b.lo)>> ELSE <<>>
GIneq(b, v) == IF Equality(b) THEN <<>> ELSE (IF Lower(b) THEN <<Neg(Diff(v, b.lo))>> ELSE <<>>) \o (IF Upper(b) THEN <<Diff(v, b.hi)>> ELSE <<>>)
RECURSIVE Flatten(_)
Flatten(s) == IF s = <<>> THEN <<>> ELSE s[1] \o Flatten(Tail(s))
GFeasible(eq, ineq) == (\A i \in 1..Len(eq) : eq[i] = 0) /\ (\A i \in 1..Len(ineq) : ineq[i] # Gap /\ ineq[i] <= 0)
\* ------------------------------------------------ what is done
Keep == UNCHANGED <<start, bounds>>
Holder(u, shared) == IF u \in DOMAIN shared THEN shared[u] ELSE u
\* sizes and order are those of the model of the user; only this model is affected
SetReal(u, j, xs) == mem' = [mem EXCEPT ![u][j].d = xs] /\ said' = "ok" /\ Keep
SetWhole(u, j, xs) == mem' = [mem EXCEPT ![u][j].i = xs] /\ said' = "ok" /\ Keep
\* order[n]: the variable which comes n-th in the vector
Place(order, j) == CHOOSE n \in 1..Len(order) : order[n] = j
Sizes(m) == [j \in 1..Len(m) |-> [d |-> Len(m[j].d), i |-> Len(m[j].i)]]
Sorted(m, order) == [n \in 1..Len(order) |-> m[order[n]]]
Assigned(m, order, x) == [j \in 1..Len(m) |-> IF \E n \in 1..Len(order) : order[n] = j THEN Slice(Sizes(Sorted(m, order)), x, Place(order, j)) ELSE m[j]]
Assign(u, order, x) == mem' = [mem EXCEPT ![u] = Assigned(mem[u], order, x)] /\ said' = "ok" /\ Keep
Vector(m, order) == Join(Sorted(m, order))
\* models are forgotten, and loaded again when they are next needed
Clear == mem' = [u \in Users |-> start] /\ said' = "ok" /\ Keep
Nothing == UNCHANGED <<mem, start, bounds>> /\ said' = "ok"
\* lower bounds are not above upper ones
SetLower(r, v) == IF v # Gap /\ bounds[r].hi # Gap /\ v > bounds[r].hi THEN said' = "refused" /\ UNCHANGED <<mem, start, bounds>>
                  ELSE bounds' = [bounds EXCEPT ![r].lo = v] /\ said' = "ok" /\ UNCHANGED <<mem, start>>
SetUpper(r, v) == IF v # Gap /\ bounds[r].lo # Gap /\ v < bounds[r].lo THEN said' = "refused" /\ UNCHANGED <<mem, start, bounds>>
                  ELSE bounds' = [bounds EXCEPT ![r].hi = v] /\ said' = "ok" /\ UNCHANGED <<mem, start>>
\* ------------------------------------------------ bisection
\* up to the limit the constraints hold.  What a search between lb and ub has to arrive at (r: whether it succeeded, and its value): a value which is
\* feasible and within the tolerance of the limit; where there is none (within the tolerance, one may be missed) it fails, or falls back to the lower bound
Found(lb, ub, eps, limit, fail, slack, r) ==
  LET best == IF limit > ub THEN ub ELSE limit
      close == r.ok /\ r.v >= lb - slack /\ r.v <= best + slack /\ best - r.v <= eps + slack
      none == IF fail THEN ~r.ok ELSE r.ok /\ r.v >= lb - slack /\ r.v <= lb + slack IN
  IF limit < lb - slack THEN none ELSE close \/ (limit < lb + eps + slack /\ none)
=============================================================================
