------------------------------ MODULE TraceRecord -----------------------------
(* Recorded runs with recorders.  A step records flows, maxima, costs, storages, levels, areas and parameters; the end of a run records
   what every recorder holds: its table, its value in each scenario, the aggregated value, its labels and whether it breaks its bounds. *)
EXTENDS TraceLib, Record
C == INSTANCE Calendar
VARIABLES c, l, hist, at
K == Cases[c]
Scens == 1..Len(K.members)
Zeros(n) == [i \in 1..n |-> 0]
\* columns over all the model's timesteps; those before the run are not simulated and hold zeros
Col(F(_)) == Zeros(at) \o [i \in 1..Len(hist) |-> F(hist[i])]
Hyd(d, e, s) == LET h == (IF d.j > 0 THEN e.par[d.j][s] - (IF d.thr = Gap THEN 0 ELSE d.thr) ELSE d.thr)
                    head == IF h > 0 THEN h ELSE 0 IN R((e.fl[d.i][s] \div 125) * (head \div 125) * 9810 * d.fac, 128)
Ser(d, e, s) ==
  CASE d.kind = "flow" -> R(e.fl[d.i][s] * d.fac, 2)
    [] d.kind = "deficit" -> e.mx[d.i][s] - e.fl[d.i][s]
    [] d.kind = "supplied" -> Ratio(e.fl[d.i][s], e.mx[d.i][s], 1000)
    [] d.kind = "curtail" -> 1000 - Ratio(e.fl[d.i][s], e.mx[d.i][s], 1000)
    [] d.kind = "cost" -> e.co[d.i][s]
    [] d.kind = "vol" -> e.vol[d.i][s]
    [] d.kind = "prop" -> R(e.pc[d.i][s], 1000)
    [] d.kind = "norm" -> Normalised(e.pc[d.i][s], e.par[d.j][s])
    [] d.kind = "level" -> e.lev[s]
    [] d.kind = "area" -> e.area[s]
    [] d.kind = "param" -> e.par[d.i][s]
    [] d.kind = "index" -> e.idx[s] * 1000
    [] d.kind = "hydro" -> Hyd(d, e, s)
SerTol(d) == CASE d.kind = "flow" -> 1 [] d.kind \in {"supplied", "curtail", "hydro"} -> 1 [] d.kind \in {"norm", "prop"} -> 1 [] OTHER -> 0
Series == {"flow", "deficit", "supplied", "curtail", "cost", "vol", "prop", "norm", "level", "area", "param", "index", "hydro"}
Curves == {"fdc", "sfdc", "fdev", "sdc"}
Fits == {"rmse", "mae", "mse", "pbias", "rsr", "nse"}
\* the slots of a 366-day year keep the last value seen
Slot(e) == C!LeapDayIndex(e.o) + 1
LastIn(d, k, s) == IF \E i \in DOMAIN hist : Slot(hist[i]) = k THEN hist[CHOOSE i \in DOMAIN hist : Slot(hist[i]) = k /\ \A j \in DOMAIN hist : j > i => Slot(hist[j]) # k].par[d.i][s] ELSE 0
FlowCol(d, s) == Col(LAMBDA e : R(e.fl[d.i][s] * d.fac, 2))
InSeason(d, xs, months) == LET n == Len(xs) IN SelectSeq([i \in 1..n |-> IF \E m \in DOMAIN d.months : d.months[m] = months[i] THEN <<xs[i]>> ELSE <<>>], LAMBDA y : y # <<>>)
Flat(ys) == [i \in DOMAIN ys |-> ys[i][1]]
\* the targets' column for a scenario
TargetCol(d, t, s) == IF Len(t[1]) = 1 THEN 1 ELSE IF d.j = 0 THEN s ELSE K.members[s][d.j]
Target(d, t, k, s) == IF t = <<>> THEN Gap ELSE t[k][TargetCol(d, t, s)]
DataOk(d, x, e) ==
  CASE d.kind \in Series -> \A t \in 1..(at + Len(hist)) : \A s \in Scens : Near(x.data[t][s], IF t <= at THEN 0 ELSE Ser(d, hist[t - at], s), SerTol(d))
    [] d.kind = "rollwin" -> \A t \in 1..(at + Len(hist)) : \A s \in Scens : Near(x.data[t][s], IF t <= at THEN 0 ELSE Agg(d.tf, Window([i \in 1..(t - at) |-> hist[i].par[d.i][s]], d.win), FALSE), 1)
    [] d.kind = "rollmean" -> \A t \in (at + 1)..(at + Len(hist)) : \A s \in Scens : Near(x.data[t][s], Mean(Window([i \in 1..(t - at) |-> hist[i].fl[d.i][s]], d.win)), 1)
    [] d.kind = "profile" -> \A k \in 1..366 : \A s \in Scens : x.data[k][s] = LastIn(d, k, s)
    [] d.kind = "fdc" -> \A k \in DOMAIN d.ps : \A s \in Scens : Near(x.data[k][s], Percentile(FlowCol(d, s), d.ps[k]), 1)
    [] d.kind = "sdc" -> \A k \in DOMAIN d.ps : \A s \in Scens : Near(x.data[k][s], Percentile(Col(LAMBDA y : y.vol[d.i][s]), d.ps[k]), 1)
    [] d.kind = "sfdc" -> \A k \in DOMAIN d.ps : \A s \in Scens : Near(x.data[k][s], Percentile(Flat(InSeason(d, FlowCol(d, s), e.months)), d.ps[k]), 1)
    [] d.kind = "fdev" -> \A k \in DOMAIN d.ps : \A s \in Scens : /\ Near(x.fdc[k][s], Percentile(FlowCol(d, s), d.ps[k]), 1)
                                                                  /\ Near(x.data[k][s], Deviation(x.fdc[k][s], Target(d, d.lo, k, s), Target(d, d.hi, k, s)), 3)
    [] OTHER -> TRUE
Column(x, s) == [t \in DOMAIN x.data |-> x.data[t][s]]
FnTol(f, n) == CASE f.fn = "sum" -> n [] f.fn = "range" -> 2 [] OTHER -> 1
\* comparisons, in eighths
O8(d, s) == [t \in DOMAIN d.lo |-> (d.lo[t][IF Len(d.lo[1]) = 1 THEN 1 ELSE s]) \div 125]
M8(d, s) == LET f == Col(LAMBDA e : e.fl[d.i][s]) IN [t \in DOMAIN f |-> f[t] \div 125]
Sq(xs) == Total([t \in DOMAIN xs |-> xs[t] * xs[t]])
Diff(d, s) == LET o == O8(d, s) m == M8(d, s) IN [t \in DOMAIN o |-> o[t] - m[t]]
Spread(d, s) == LET o == O8(d, s) IN Len(o) * Sq(o) - Total(o) * Total(o)
RootOk(v, num, den) == LET r == R(v, 10) IN Near(r * r, (num * 10000) \div den, r + (r \div 8) + 2)
FitOk(d, v, s) ==
  LET df == Diff(d, s) n == Len(df) IN
  CASE d.kind = "mse" -> Near(v, R(Sq(df) * 1000, 64 * n), 1)
    [] d.kind = "rmse" -> RootOk(v, Sq(df), 64 * n)
    [] d.kind = "mae" -> Near(v, R(Total([t \in 1..n |-> Abs(df[t])]) * 125, n), 1)
    [] d.kind = "pbias" -> Total(O8(d, s)) = 0 \/ Near(v, R(Total(df) * 100000, Total(O8(d, s))), 1)
    [] d.kind = "nse" -> Spread(d, s) = 0 \/ Near(v, 1000 - R(n * Sq(df) * 1000, Spread(d, s)), 1)
    [] d.kind = "rsr" -> Spread(d, s) = 0 \/ RootOk(v, n * Sq(df), Spread(d, s))
Sum2(F(_)) == Total([i \in DOMAIN hist |-> F(hist[i])])
N == Len(hist)
ConstOk(d, v, s) ==
  CASE d.kind = "totdef" -> Near(v, Sum2(LAMBDA e : (e.mx[d.i][s] - e.fl[d.i][s]) * e.days), 1)
    [] d.kind = "totflow" -> Near(v, R(Sum2(LAMBDA e : e.fl[d.i][s] * e.days) * d.fac, 2), 1)
    [] d.kind = "meanflow" -> Near(v, R(Sum2(LAMBDA e : e.fl[d.i][s]) * d.fac, 2 * N), 1)
    [] d.kind = "deffreq" -> Near(v, R(1000 * Cardinality({i \in DOMAIN hist : hist[i].mx[d.i][s] # hist[i].fl[d.i][s]}), N), 1)
    [] d.kind = "minvol" -> v = Least([i \in DOMAIN hist |-> hist[i].vol[d.i][s]])
    [] d.kind = "minthr" -> v = (IF \E i \in DOMAIN hist : hist[i].vol[d.i][s] <= d.thr THEN 1000 ELSE 0)
    [] d.kind = "count" -> v = 1000 * Cardinality({i \in DOMAIN hist : hist[i].idx[s] * 1000 >= d.thr})
    [] d.kind = "totpar" -> Near(v, R(Sum2(LAMBDA e : e.par[d.i][s] * (IF d.integ THEN e.days ELSE 1)) * d.fac, 2), 1)
    [] d.kind = "meanpar" -> Near(v, R(Sum2(LAMBDA e : e.par[d.i][s]) * d.fac, 2 * N), 1)
    [] d.kind = "energy" -> Near(v, Sum2(LAMBDA e : Hyd(d, e, s) * e.days), Sum2(LAMBDA e : e.days))
Silent == {"index", "rollwin", "rollmean"}
ValsOk(d, x, e) ==
  CASE d.kind \in Silent -> x.vals = <<>>
    [] d.kind \in (Series \cup Curves \cup {"profile"}) -> \A s \in Scens : LET col == Column(x, s) IN Near(x.vals[s], Agg(d.tf, col, d.ign), FnTol(d.tf, Len(col)))
    [] d.kind \in Fits -> \A s \in Scens : FitOk(d, x.vals[s], s)
    [] d.kind = "aggrec" -> \A s \in Scens : Near(x.vals[s], Agg(d.tf, [k \in DOMAIN d.src |-> e.rs[d.src[k]].vals[s]], FALSE), 2 * Len(d.src))
    [] OTHER -> \A s \in Scens : ConstOk(d, x.vals[s], s)
AggOk(d, x) == d.kind \in Silent \/ Near(x.agg, Agg(d.af, x.vals, d.ign), FnTol(d.af, Len(x.vals)))
BoundsOk(d, x) == d.kind \in Silent \/ x.agg = Gap \/
                  (IF d.lb = Gap /\ d.ub = Gap THEN x.viol = -1
                   ELSE IF (d.lb # Gap /\ Abs(x.agg - d.lb) <= 1) \/ (d.ub # Gap /\ Abs(x.agg - d.ub) <= 1) THEN x.viol \in {0, 1} /\ (x.edge => x.viol = 0)
                   ELSE x.viol = (IF Violated(x.agg, d.lb, d.ub) THEN 1 ELSE 0))
FlagsOk(d, x) == x.flags = <<d.lb # Gap /\ d.lb = d.ub, d.lb # Gap /\ d.ub # Gap /\ d.lb # d.ub, d.lb # Gap /\ d.ub = Gap, d.lb = Gap /\ d.ub # Gap, d.lb # Gap \/ d.ub # Gap>>
Labelled == Series \cup Curves \cup {"profile", "rollwin"}
LabelsOk(d, x, e) == d.kind \notin Labelled \/
   /\ x.cols = K.members
   /\ x.rows = (IF d.kind = "profile" THEN [k \in 1..366 |-> k] ELSE IF d.kind \in Curves THEN [k \in DOMAIN d.ps |-> d.ps[k]] ELSE e.starts)
EndBad(e) == UNION {LET d == e.recs[k] x == e.rs[k] IN
   {<<d.kind, k, n>> : n \in Failed([data |-> DataOk(d, x, e), values |-> ValsOk(d, x, e), aggregated |-> AggOk(d, x), bounds |-> BoundsOk(d, x), flags |-> FlagsOk(d, x), labels |-> LabelsOk(d, x, e)])} : k \in DOMAIN e.recs}
TInit == c \in 1..Len(Cases) /\ l = 0 /\ hist = <<>> /\ at = 0
TNext == LET e == Cases[c].ev[l'] IN
  /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
  /\ CASE e.k = "run" -> hist' = <<>> /\ at' = e.at
       [] e.k = "step" -> hist' = Append(hist, e) /\ at' = at
       [] e.k = "end" -> Report(c, l', EndBad(e)) /\ UNCHANGED <<hist, at>>
TSpec == TInit /\ [][TNext]_<<c, l, hist, at>>
===============================================================================
