-------------------------------- MODULE Summary --------------------------------
(* What is said about a run once, or while, it is made: its progress, the settings it was made with, the entries of its profile, its result
   object, and the links of the flow diagram drawn from the stored flows of its routes.                                                     *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumS(_, _), Best(_, _, _)
SumS(q, j) == IF j > Len(q) THEN 0 ELSE q[j] + SumS(q, j + 1)
Best(q, j, up) == IF j = Len(q) THEN q[j] ELSE LET b == Best(q, j + 1, up) IN IF (q[j] > b) = up THEN q[j] ELSE b
Mean(q) == (2 * SumS(q, 1) + Len(q)) \div (2 * Len(q))
Agg(how, q) == CASE how = "sum" -> SumS(q, 1) [] how = "mean" -> Mean(q) [] how = "max" -> Best(q, 1, TRUE) [] how = "min" -> Best(q, 1, FALSE) [] how = "only" -> q[1]

(* ---- links.  flow[t][r][f]: route r in timestep t and combination f;  times, combs: those looked at *)
Amount(flow, r, times, tagg, combs, sagg) == Agg(sagg, [i \in DOMAIN combs |-> Agg(tagg, [j \in DOMAIN times |-> flow[times[j]][r][combs[i]]])])
\* names: start and end of every route;  drop: routes which the caller does not want;  ren: other names for starts and ends
Ends(routes, ren, r) == <<ren.s[routes[r][1]], ren.e[routes[r][2]]>>
Kept(routes, ren, drop, circ) == {r \in DOMAIN routes : r \notin drop /\ ~(circ /\ Ends(routes, ren, r)[1] = Ends(routes, ren, r)[2])}
RECURSIVE Total(_, _)
Total(S, val) == IF S = {} THEN 0 ELSE LET r == CHOOSE r \in S : TRUE IN val[r] + Total(S \ {r}, val)
Links(routes, ren, drop, circ, thr, val) ==
  LET keep == Kept(routes, ren, drop, circ)
      all == {[ends |-> e, value |-> Total({r \in keep : Ends(routes, ren, r) = e}, val)] : e \in {Ends(routes, ren, r) : r \in keep}}
  IN {x \in all : x.value >= thr}

(* ---- progress.  A message is due at the first step, and whenever another whole percent is complete *)
Percent(i, n) == (100 * i) \div n
\* an exact whole percent may be taken for one less by the arithmetic, except at the end
Seen(i, n) == IF (100 * i) % n = 0 /\ i < n THEN {Percent(i, n), Percent(i, n) - 1} ELSE {Percent(i, n)}

(* ---- settings: what the user says, else what the environment says, else off *)
Yes == {"1", "true", "True", "TRUE", "tRUE"}
Setting(kw, env) == IF kw # <<>> THEN kw[1] ELSE IF env # <<>> THEN env[1] \in Yes ELSE FALSE
================================================================================
