------------------------------ MODULE TraceBands ------------------------------
(* Recorded runs with control curves and thresholds.  A timestep records the storages' proportions and volumes at its start, the flows
   of the previous one, and every parameter's value (also as a proportion) and index in every scenario. *)
EXTENDS TraceLib, Bands
VARIABLES c, l, ds, on, pv
K == Cases[c]
Scens == 1..Len(K.members)
V(e, i, s) == e.v[i][s]
Curves(d, e, s) == [j \in DOMAIN d.cs |-> e.p[d.cs[j]][s]]
\* with curves that are multiples of 1/64 nothing is rounded
Exact(d, e, s) == IF e.ex[s] /\ K.exact THEN 0 ELSE 1
Chosen(d, e, s, j) == IF d.vp # <<>> THEN V(e, d.vp[j], s) ELSE d.vals[j]
Vs(d, e, s) == [j \in 1..Len(IF d.vp # <<>> THEN d.vp ELSE d.vals) |-> Chosen(d, e, s, j)]
Tol(d, vals, up, lo) == IF up - lo <= 1 THEN 2 ELSE 2 + ((Most([j \in DOMAIN vals |-> Abs(vals[j])]) * 2) \div (up - lo))
BandV(d, e, s, j) ==
  LET cs == Curves(d, e, s) IN
  CASE d.op = "cc" -> Chosen(d, e, s, j)
    [] d.op = "cint" -> Interpolated(e.pc[s][d.st], cs, Vs(d, e, s), j)
    [] d.op = "cpw" -> Piecewise(e.pc[s][d.st], cs, d.pairs, d.min, d.max, j)
BandTol(d, e, s, j) ==
  LET cs == Curves(d, e, s) IN
  CASE d.op = "cc" -> 0
    [] d.op = "cint" -> Tol(d, Vs(d, e, s), Upper(cs, j), Lower(cs, j))
    [] d.op = "cpw" -> Tol(d, d.pairs[j], IF j = 1 THEN d.max ELSE cs[j - 1], IF j <= Len(cs) THEN cs[j] ELSE d.min)
\* what a threshold compares, and how closely that is known
Seen(d, e, s) ==
  CASE d.op = "tst" -> <<e.vol[s][d.st], IF e.exv[s] THEN 0 ELSE 1>>
    [] d.op \in {"tnode", "mnode"} -> <<e.prev[s][d.node], IF e.exf[s] THEN 0 ELSE 1>>
    [] d.op \in {"tpar", "mpar"} -> <<V(e, d.a, s), 0>>
    [] d.op = "trec" -> (CASE d.src = "flow" -> <<e.prev[s][d.node], IF e.exf[s] THEN 0 ELSE 1>>
                          [] d.src = "vol" -> <<e.vol[s][d.st], IF e.exv[s] THEN 0 ELSE 1>>
                          [] d.src = "par" -> <<IF pv = <<>> THEN 0 ELSE pv[d.a][s], 0>>)
    [] d.op = "tyear" -> <<e.year * 1000, 0>>
    [] d.op = "tday" -> <<e.o * 1000, 0>>
Limit(d, e, s) == IF d.thr = 0 THEN d.t ELSE V(e, d.thr, s)
Starts(d, e) == e.first /\ d.op \in {"tnode", "trec"}
Indices(d, i, e, s) ==
  IF Starts(d, e) THEN {IF d.op = "tnode" THEN 0 ELSE d.init}
  ELSE LET x == Seen(d, e, s) IN {Switch(d.ratchet, on[i][s] = 1, a) : a \in Answers(d.rel, x[1], Limit(d, e, s), x[2])}
Thr == {"tst", "tnode", "tpar", "trec", "tyear", "tday"}
Ok(d, i, e, s) ==
  CASE d.op \in {"tab", "const", "month", "xtab"} -> TRUE
    [] d.op = "cci" -> \E j \in Bands(e.pc[s][d.st], Curves(d, e, s), Exact(d, e, s)) : e.ix[i][s] = j - 1 /\ V(e, i, s) = 1000 * (j - 1)
    [] d.op \in {"mnode", "mpar"} -> LET x == Seen(d, e, s) IN \E j \in Bands(x[1], [k \in DOMAIN d.cs |-> V(e, d.cs[k], s)], x[2]) : e.ix[i][s] = j - 1 /\ V(e, i, s) = 1000 * (j - 1)
    [] d.op \in {"cc", "cint", "cpw"} -> \E j \in Bands(e.pc[s][d.st], Curves(d, e, s), Exact(d, e, s)) : Near(V(e, i, s), BandV(d, e, s, j), BandTol(d, e, s, j))
    [] d.op \in Thr -> e.ix[i][s] \in Indices(d, i, e, s) /\ V(e, i, s) = (IF d.vals = <<>> THEN NAN ELSE d.vals[e.ix[i][s] + 1])
    [] d.op = "wavg" -> LET n == Len(d.cs) IN Near(V(e, i, s) * Total(d.vals), Total([k \in 1..n |-> d.vals[k] * V(e, d.cs[k], s)]), 2 * Total(d.vals))
Bad(e) ==
  CASE e.k = "step" -> {<<ds[x[1]].op, x[1], x[2]>> : x \in {y \in (DOMAIN ds) \X Scens : ~Ok(ds[y[1]], y[1], e, y[2])}}
    [] e.k = "set" -> {}
    [] e.k = "refuse" -> Failed([refused |-> e.refused])
\* a ratchet is released when a run begins
Off == [i \in DOMAIN ds |-> [s \in Scens |-> 0]]
Kept(e) == CASE e.k = "set" -> Off [] e.k = "refuse" -> on
             [] e.k = "step" -> [i \in DOMAIN ds |-> [s \in Scens |-> IF ds[i].op \in Thr /\ ~Starts(ds[i], e) /\ e.ix[i][s] = 1 THEN 1 ELSE on[i][s]]]
TInit == c \in 1..Len(Cases) /\ l = 0 /\ ds = Cases[c].ds /\ on = [i \in DOMAIN Cases[c].ds |-> [s \in 1..Len(Cases[c].members) |-> 0]] /\ pv = <<>>
TNext == LET e == Cases[c].ev[l'] IN
         /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
         /\ Report(c, l', Bad(e)) /\ on' = Kept(e)
         /\ ds' = (IF e.k = "set" THEN e.ds ELSE ds) /\ pv' = (IF e.k = "step" THEN e.v ELSE IF e.k = "set" THEN <<>> ELSE pv)
TSpec == TInit /\ [][TNext]_<<c, l, ds, on, pv>>
===============================================================================
