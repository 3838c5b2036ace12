----------------------------- MODULE TraceOptimise -----------------------------
(* Recorded histories of evaluations of real models by optimisers.                  *)
EXTENDS TraceLib
VARIABLES k, l, start, mem, bounds, said
U == {"a", "b"}
O == INSTANCE Optimise WITH Users <- U
C == Cases[k]
Ev == C.ev
P == C.params
R == C.recs
TInit == \E m \in 1..Len(Cases) : /\ k = m /\ l = 0 /\ said = "ok"
          /\ start = [j \in 1..Len(Cases[m].params) |-> Cases[m].params[j].start]
          /\ mem = [u \in U |-> [j \in 1..Len(Cases[m].params) |-> Cases[m].params[j].start]]
          /\ bounds = [r \in 1..Len(Cases[m].recs) |-> [lo |-> Cases[m].recs[r].lo, hi |-> Cases[m].recs[r].hi]]
Flat(S) == {<<x>> : x \in S}
Rng(s) == {s[i] : i \in 1..Len(s)}
Once(s, S) == Rng(s) = S /\ Len(s) = Cardinality(S)
NearV(a, b) == Near(a, b, 4 + (IF a > 0 THEN a ELSE 0 - a) \div 50000)
Do(e) ==
  CASE e.op = "set" /\ e.which = "d" -> O!SetReal(e.u, e.j, e.x)
    [] e.op = "set" /\ e.which = "i" -> O!SetWhole(e.u, e.j, e.x)
    [] e.op = "eval" /\ e.by # "run" -> O!Assign(e.u, e.order, e.x)
    [] e.op = "clear" -> O!Clear
    [] e.op = "lower" -> O!SetLower(e.r, e.v)
    [] e.op = "upper" -> O!SetUpper(e.r, e.v)
    [] OTHER -> O!Nothing
Variables == {j \in 1..Len(P) : P[j].variable}
Objectives == {r \in 1..Len(R) : O!IsObjective(R[r])}
Constraints == {r \in 1..Len(R) : O!IsConstraint(bounds[r])}
\* ------------------------------------------------ reading back
Reads(e) == (IF e.op = "set" /\ ~e.held THEN {<<"values_read_before">>} ELSE {}) \cup UNION {{<<"values", a[1], j>> : j \in {j \in 1..Len(P) : a[2][j] # mem'[a[1]][j]}} : a \in Rng(e.after)}
\* ------------------------------------------------ what a wrapper says of the problem
First == Ev[CHOOSE i \in 1..Len(Ev) : Ev[i].op \in {"eval", "generate"} /\ \A j \in 1..(i - 1) : Ev[j].op \notin {"eval", "generate"}].order
Orders(e) == Flat(Failed([order_of_variables |-> Once(e.order, Variables) /\ e.order = First]))
BoundsOf(order, lo) == O!Flatten([n \in 1..Len(order) |-> IF lo THEN P[order[n]].lo \o P[order[n]].ilo ELSE P[order[n]].hi \o P[order[n]].ihi])
AllOps(rcon) == O!Flatten([n \in 1..Len(rcon) |-> O!POps(bounds[rcon[n]])])
Problem(e) ==
  Flat(Failed([objectives |-> Once(e.robj, Objectives), constraints |-> Once(e.rcon, Constraints)]))
  \cup (IF e.by # "platypus" THEN {} ELSE Flat(Failed([
          types |-> e.types = [n \in 1..Len(BoundsOf(e.order, TRUE)) |-> <<BoundsOf(e.order, TRUE)[n], BoundsOf(e.order, FALSE)[n]>>],
          number |-> e.nobj = Cardinality(Objectives) /\ e.ncon = Len(AllOps(e.rcon)),
          operators |-> e.ops = AllOps(e.rcon)])))
  \cup (IF e.by # "pygmo" THEN {} ELSE Flat(Failed([
          bounds |-> e.lo = BoundsOf(e.order, TRUE) /\ e.hi = BoundsOf(e.order, FALSE),
          number |-> e.nobj = Cardinality(Objectives) /\ e.nec = Cardinality({r \in Constraints : O!Equality(bounds[r])})
                     /\ e.nec + e.nic = Len(AllOps(e.rcon))])))
\* ------------------------------------------------ the run
\* a flow which a variable limits
Lim(x) == IF x = NAN THEN NAN ELSE IF x < 0 THEN 0 ELSE x
Effect(e, j) == UNION {{<<"value", t, j, s>> : s \in {s \in 1..Len(e.rows[t].p[j]) :
       \/ O!Formula(P[j]) /\ ~NearV(e.rows[t].p[j][s], O!Value(P[j], mem'[e.u][j], e.rows[t].month, e.rows[t].band[s] \div 1000))
       \/ P[j].limits /\ ~NearV(e.rows[t].f[j][s], Lim(e.rows[t].p[j][s]))}} : t \in 1..Len(e.rows)}
\* as in a model which has these values from the start
Same(e) == IF ~e.fresh THEN {} ELSE
  Flat(Failed([timesteps |-> Len(e.all) = Len(e.anew) /\ Len(e.rows) = C.steps]))
  \cup {<<"as_if_built_that_way", t>> : t \in {t \in 1..Len(e.anew) : \E x \in 1..Len(e.anew[t]) : ~NearV(e.anew[t][x], e.all[t][x])}}
\* ------------------------------------------------ objectives and constraints
V(e, r) == O!Aggregated(R[r], e.vals[r])
Undecided(e, r) == ~R[r].exact /\ (Near(e.agg[r], bounds[r].lo, 3) \/ Near(e.agg[r], bounds[r].hi, 3))
Bad(e, r) == O!Broken(e.agg[r], bounds'[r])
Judge(e) ==
  LET sure == \A r \in Constraints : ~Undecided(e, r)
      ok == \A r \in Constraints : ~Bad(e, r) IN
  {<<"aggregated", r>> : r \in {r \in 1..Len(R) : IF R[r].exact THEN e.agg[r] # V(e, r) ELSE ~Near(e.agg[r], V(e, r), 3)}}
  \cup {<<"violated", r>> : r \in {r \in Constraints : ~Undecided(e, r) /\ e.violated[r] # (IF Bad(e, r) THEN "yes" ELSE "no")}}
  \cup {<<"not_a_constraint", r>> : r \in {r \in (1..Len(R)) \ Constraints : e.violated[r] # "refused"}}
  \cup {<<"kind", r>> : r \in {r \in 1..Len(R) : LET b == bounds[r] IN e.kinds[r] # <<O!IsConstraint(b), O!Equality(b), O!Double(b), O!Lower(b) /\ ~O!Upper(b), O!Upper(b) /\ ~O!Lower(b)>>}}
  \cup Flat(Failed([feasible |-> ~sure \/ e.feasible = ok]))
  \cup (IF e.by = "run" THEN {} ELSE Flat(Failed([
        objective_values |-> Len(e.objs) = Len(e.robj) /\ \A n \in 1..Len(e.robj) : Near(e.objs[n], O!Objective(R[e.robj[n]], e.agg[e.robj[n]]), 1),
        optimiser_feasible |-> ~sure \/ e.ofeasible = ok])))
  \cup (IF e.by # "platypus" THEN {} ELSE Flat(Failed([constraint_values |-> e.cons = O!Flatten([n \in 1..Len(e.rcon) |-> O!PVals(bounds[e.rcon[n]], e.agg[e.rcon[n]])])])))
  \cup (IF e.by # "pygmo" THEN {} ELSE LET G(x) == O!Flatten([n \in 1..Len(e.rcon) |-> IF x THEN O!GEq(bounds[e.rcon[n]], e.agg[e.rcon[n]]) ELSE O!GIneq(bounds[e.rcon[n]], e.agg[e.rcon[n]])])
                                           w == G(TRUE) \o G(FALSE) IN
        Flat(Failed([constraint_values |-> Len(e.cons) = Len(w) /\ \A i \in 1..Len(w) : Near(e.cons[i], w[i], 1)])))
\* ------------------------------------------------ starting points
Starting(e) ==
  LET lo == BoundsOf(e.order, TRUE)  hi == BoundsOf(e.order, FALSE) IN
  Flat(Failed([number |-> Len(e.y) = Len(lo),
       current |-> e.kind = "current" => e.y = O!Vector(mem[e.u], e.order),
       given |-> e.kind = "given" => e.y = [n \in 1..Len(lo) |-> O!Clip(O!Vector(e.given, e.order)[n], lo[n], hi[n])],
       within |-> e.kind = "random" => \A n \in 1..Len(lo) : lo[n] - 1 <= e.y[n] /\ e.y[n] <= hi[n] + 1]))
\* ------------------------------------------------ searches
Search(e) == Flat(Failed([
     found |-> O!Found(e.lb, e.ub, e.eps, e.limit, e.fail, 2, [ok |-> e.out = "ok", v |-> e.value]),
     model_shows_result |-> e.out = "ok" => \A x \in Rng(e.shown) : Near(x, e.value, 1),
     feasible_at_the_end |-> e.out = "ok" /\ e.limit >= e.lb + e.eps + 4 => e.feasible,
     within_bounds |-> \A x \in Rng(e.tried) : e.lb - 1 <= x /\ x <= e.ub + 1]))
TNext == /\ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED k
         /\ LET e == Ev[l + 1] IN
            /\ Do(e)
            /\ Report(k, l', Reads(e)
                 \cup (IF e.op \in {"lower", "upper"} THEN Flat(Failed([accepted_or_refused |-> e.out = said'])) ELSE {})
                 \cup (IF e.op = "eval" THEN Orders(e) \cup Problem(e) \cup UNION {Effect(e, j) : j \in 1..Len(P)} \cup Same(e) \cup Judge(e) ELSE {})
                 \cup (IF e.op = "generate" THEN Orders(e) \cup Starting(e) ELSE {})
                 \cup (IF e.op = "search" THEN Search(e) ELSE {}))
TSpec == TInit /\ [][TNext]_<<k, l, start, mem, bounds, said>>
================================================================================
