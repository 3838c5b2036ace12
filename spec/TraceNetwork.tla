---------------------------- MODULE TraceNetwork ----------------------------
(* Recorded runs of random networks against Network: the state is the volume of every storage and virtual storage in every
   scenario; a step must be feasible for its limits, cost optimal (certificate) and integrate the volumes.  Flows and volumes
   are thousandths, costs hundredths, multipliers and proportions ten-thousandths. *)
EXTENDS TraceLib
N == INSTANCE Network WITH K <- 100
VARIABLES c, l, st
Want == {Doc.want[i] : i \in 1..Len(Doc.want)}
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
\* a * b \div s for products beyond 32 bits (a up to 10^6, b up to 10^6)
MulDiv(a, b, s) == (IF s >= 1000 THEN ((a \div 1000) * b) \div (s \div 1000) ELSE (a \div 1000) * b * (1000 \div s)) + ((a % 1000) * b) \div s
TInit == c \in 1..Len(Cases) /\ l = 0 /\ st = [s \in 1..Cases[c].S |-> [vol |-> <<>>, vvol |-> <<>>, flow |-> <<>>]]
Net == Cases[c].net
Days == Cases[c].days
Sto == N!OfKind(Net, "sto")
SumOver(ms, v) == N!SumSeq([i \in 1..Len(ms) |-> v[ms[i]]])
\* volumes at the start
Start(i) == IF i.var THEN i.v ELSE IF i.pc >= 0 THEN RDiv(i.pc * i.mx, 100) ELSE i.v
\* a step's data completed by what follows from the state
Vhi(e, s) == [i \in 1..Len(Net.vs) |-> RDiv(Max(s.vvol[i] - e.vmin[i], 0), Days)]
D(e, s) == [lo |-> e.lo, hi |-> e.hi, c |-> e.c, glo |-> e.glo, ghi |-> e.ghi, gf |-> e.gf, vhi |-> Vhi(e, s),
            slo |-> [n \in 1..Len(Net.kind) |-> IF Net.kind[n] = "sto" THEN 0 - RDiv(Max(s.vol[n] - e.smin[n], 0), Days) ELSE 0],
            shi |-> [n \in 1..Len(Net.kind) |-> IF Net.kind[n] = "sto" THEN RDiv(Max(e.smax[n] - s.vol[n], 0), Days) ELSE 0]]
\* Sum a x in thousandths (a hundredths), with the rounding its terms may have
RowVal(r, x) == N!Dot(r.a, x)
RowTol(r) == N!SumSeq([i \in 1..Len(r.a) |-> Abs(r.a[i])]) \div 2 + 2 * 100
RowOK(r, x) == LET v == RowVal(r, x) t == RowTol(r) IN
  /\ r.lo # -INF => v >= 100 * r.lo - t
  /\ r.hi # INF => v <= 100 * r.hi + t
Broken(rs, x) == {rs[i].t : i \in {i \in 1..Len(rs) : ~RowOK(rs[i], x)}}
\* reduced cost of an edge in ten-thousandths: hundredths of cost * 100 - Sum a y / 100
Red(d, rs, y, e, w) == (IF w THEN 100 * N!EdgeCost(Net, d, e) ELSE 0) - RDiv(N!SumSeq([i \in 1..Len(rs) |-> IF rs[i].a[e] = 0 THEN 0 ELSE rs[i].a[e] * y[i]]), 100)
RedTol(rs, e) == 2 + N!SumSeq([i \in 1..Len(rs) |-> Abs(rs[i].a[e])]) \div 200
CertOK(d, rs, y, w) ==
  /\ \A i \in 1..Len(rs) : (y[i] > 1 => rs[i].lo # -INF) /\ (y[i] < -1 => rs[i].hi # INF)
  /\ \A e \in 1..Len(Net.edges) : Red(d, rs, y, e, w) >= 0 - RedTol(rs, e)
\* dual objective in thousandths of cost * flow: y (1e-4) * bound (1e-3) / 1e4
Term(r, yi, sc) == IF Abs(yi) <= 1 THEN 0 ELSE LET b == IF yi > 0 THEN r.lo ELSE r.hi IN
               IF (yi > 0) = (b > 0) THEN MulDiv(Abs(yi), Abs(b), sc) ELSE 0 - MulDiv(Abs(yi), Abs(b), sc)
DualObjS(rs, y, sc) == N!SumSeq([i \in 1..Len(rs) |-> Term(rs[i], y[i], sc)])
DualObj(rs, y) == DualObjS(rs, y, 10000)
ObjTol(rs, y, x) == 5 + N!SumSeq([i \in 1..Len(rs) |-> IF Abs(y[i]) <= 1 THEN 0 ELSE 2 + Abs(y[i]) \div 10000 + Abs(IF y[i] > 0 THEN rs[i].lo ELSE rs[i].hi) \div 10000])
                      + N!SumSeq([i \in 1..Len(x) |-> 1 + x[i] \div 3000])
PrimalCost(d, x) == N!SumSeq([e \in 1..Len(x) |-> LET k == N!EdgeCost(Net, d, e) IN
                       IF k >= 0 THEN MulDiv(k * 10, x[e], 1000) ELSE 0 - MulDiv(0 - k * 10, x[e], 1000)])
Arrive(x, n) == N!SumSeq([e \in 1..Len(x) |-> N!In(Net, e, n) * x[e]])
Leave(x, n) == N!SumSeq([e \in 1..Len(x) |-> N!Out(Net, e, n) * x[e]])
Tol(n) == 3 + Len(Net.edges)
NodeMass(e, n) == CASE Net.kind[n] = "in" -> Near(e.flow[n], Leave(e.x, n), Tol(n))
                    [] Net.kind[n] = "out" -> Near(e.flow[n], Arrive(e.x, n), Tol(n))
                    [] Net.kind[n] = "link" -> Near(e.flow[n], Arrive(e.x, n), Tol(n)) /\ Near(e.flow[n], Leave(e.x, n), Tol(n))
                    [] OTHER -> Near(e.flow[n], Arrive(e.x, n) - Leave(e.x, n), Tol(n))
VTol == 3 + Days
PcOK(pc, v, mx) == IF mx = 0 THEN TRUE ELSE pc = NAN \/ Near(RDiv(pc, 10) * (mx \div 10), v * 100, mx \div 10 + 1000)
BadStep(e) ==
  LET s == st[e.s] d == D(e, s) rs == N!Rows(Net, d) x == e.x ns == 1..Len(Net.kind)
      broken == Broken(rs, x)
  IN Failed([
       C05_mass |-> \A n \in ns : NodeMass(e, n),
       C05_nonnegative |-> \A i \in 1..Len(x) : x[i] >= -1,
       C05_limits |-> "limit" \notin broken, C05_balance |-> "balance" \notin broken, C05_storage |-> "storage" \notin broken,
       C08_cap |-> "virtual" \notin broken, C11_limit |-> "agg" \notin broken, C11_ratio |-> "ratio" \notin broken,
       C05_conversion |-> "conversion" \notin broken,
       C05_feasible |-> e.feas,
       certificate |-> ~e.cert \/ CertOK(d, rs, e.y, TRUE),
       C06_optimal |-> ~e.cert \/ PrimalCost(d, x) <= DualObj(rs, e.y) + ObjTol(rs, e.y, x),
       C06_not_better_than_possible |-> ~e.cert \/ PrimalCost(d, x) >= DualObj(rs, e.y) - ObjTol(rs, e.y, x),
       C07_volume |-> \A n \in ns : Net.kind[n] = "sto" => Near(e.vol[n], s.vol[n] + e.flow[n] * Days, VTol),
       C07_bounds |-> \A n \in ns : Net.kind[n] = "sto" => e.vol[n] <= Max(e.smax[n], s.vol[n]) + 2 /\ e.vol[n] >= Min(e.smin[n], s.vol[n]) - 2,
       C07_pc |-> \A n \in ns : Net.kind[n] = "sto" => (e.smax[n] = 0 \/ Near(e.pc[n], RDiv(e.vol[n] * 10, RDiv(e.smax[n], 1000)) , 20 + e.vol[n] \div 1000) \/ PcOK(e.pc[n], e.vol[n], e.smax[n])),
       C07_aggregated_volume |-> \A i \in 1..Len(Net.aggsto) : Near(e.avol[i], SumOver(Net.aggsto[i], e.vol), 3),
       C07_aggregated_flow |-> \A i \in 1..Len(Net.aggsto) : Near(e.aflow[i], SumOver(Net.aggsto[i], e.flow), 3),
       C07_aggregated_pc |-> \A i \in 1..Len(Net.aggsto) : LET mx == SumOver(Net.aggsto[i], e.smax) IN mx = 0 \/ PcOK(e.apc[i], SumOver(Net.aggsto[i], e.vol), mx),
       C08_debit |-> \A i \in 1..Len(Net.vs) : Near(e.vvol[i], s.vvol[i] - RDiv(N!SumSeq([j \in 1..Len(Net.vs[i].nodes) |-> Net.vs[i].f[j] * e.flow[Net.vs[i].nodes[j]]]), 100) * Days, 3 + 6 * Days),
       C08_flow |-> \A i \in 1..Len(Net.vs) : Near(e.vflow[i], 0 - RDiv(N!SumSeq([j \in 1..Len(Net.vs[i].nodes) |-> Net.vs[i].f[j] * e.flow[Net.vs[i].nodes[j]]]), 100), 6),
       C08_bounds |-> \A i \in 1..Len(Net.vs) : e.vvol[i] >= Min(e.vmin[i], s.vvol[i]) - 2 /\ e.vvol[i] <= e.vmax[i] + 2,
       C08_pc |-> \A i \in 1..Len(Net.vs) : e.vmax[i] = 0 \/ PcOK(e.vpc[i], e.vvol[i], e.vmax[i]),
       C11_flow |-> \A i \in 1..Net.nagg : Near(e.gflow[i], RDiv(N!SumSeq([j \in 1..Len(Net.agg[i].nodes) |-> Net.agg[i].w[j] * e.flow[Net.agg[i].nodes[j]]]), 100), 8),
       C13_reported |-> \A i \in 1..Len(Net.cmp) : Near(e.cflow[i], SumOver(Net.cmp[i], e.flow), 1 + Len(Net.cmp[i])),
       C12_previous |-> \A n \in ns : Near(e.prev[n], e.flow[n], 1)])
BadFail(e) == LET d == D(e, st[e.s]) rs == N!Rows(Net, d) IN
  Failed([C05_unjustified_error |-> CertOK(d, rs, e.y, FALSE) /\ DualObjS(rs, e.y, 10) > 0])
Good(v, i) == Near(v, Start(i), 1)
BadInit(e) == Failed([
   C07_initial |-> \A n \in 1..Len(Net.kind) : Net.kind[n] = "sto" => Good(e.vol[n], Cases[c].init[n]),
   C07_initial_pc |-> \A n \in 1..Len(Net.kind) : Net.kind[n] = "sto" => LET i == Cases[c].init[n] IN
                        IF i.var THEN Near(e.pc[n], i.pc * 100, 1) ELSE i.mx = 0 \/ PcOK(e.pc[n], e.vol[n], i.mx),
   C08_initial |-> \A n \in 1..Len(Net.vs) : Near(e.vvol[n], IF Cases[c].vinit[n].v >= 0 THEN Cases[c].vinit[n].v ELSE RDiv(Cases[c].vinit[n].pc * RDiv(Cases[c].vinit[n].mx, 100), 1), 1),
   C07_initial_aggregated |-> \A i \in 1..Len(Net.aggsto) : Near(e.avol[i], SumOver(Net.aggsto[i], e.vol), 3) /\ e.aflow[i] = 0,
   C07_initial_aggregated_pc |-> \A i \in 1..Len(Net.aggsto) : (\E k \in 1..Len(Net.aggsto[i]) : Cases[c].init[Net.aggsto[i][k]].var)
                                   \/ LET mx == SumOver(Net.aggsto[i], [n \in 1..Len(Net.kind) |-> Cases[c].init[n].mx]) IN mx = 0 \/ PcOK(e.apc[i], SumOver(Net.aggsto[i], e.vol), mx)])
\* which property a clause belongs to is its prefix; only the wanted ones are reported
Clause == [C05 |-> {"C05_mass", "C05_nonnegative", "C05_limits", "C05_balance", "C05_storage", "C05_conversion", "C05_feasible", "C05_unjustified_error", "certificate"},
           C06 |-> {"C06_optimal", "C06_not_better_than_possible", "certificate", "C05_unjustified_error"},
           C07 |-> {"C07_volume", "C07_bounds", "C07_pc", "C07_aggregated_volume", "C07_aggregated_flow", "C07_aggregated_pc", "C07_initial", "C07_initial_pc", "C07_initial_aggregated", "C07_initial_aggregated_pc", "C05_storage"},
           C08 |-> {"C08_cap", "C08_debit", "C08_flow", "C08_bounds", "C08_pc", "C08_initial", "C06_optimal", "C05_unjustified_error", "certificate"},
           C13 |-> {"C13_reported", "C05_mass", "C05_limits", "C05_balance", "C05_storage", "C05_feasible", "C11_ratio", "C06_optimal", "C06_not_better_than_possible", "C05_unjustified_error", "certificate"},
           C11 |-> {"C11_limit", "C11_ratio", "C11_flow", "C06_optimal", "C05_unjustified_error", "certificate"}]
Relevant == UNION {Clause[w] : w \in Want}
Bad(e) == (CASE e.k = "init" -> BadInit(e) [] e.k = "step" -> BadStep(e) [] OTHER -> BadFail(e)) \cap Relevant
After(e) == IF e.k = "fail" THEN st ELSE [st EXCEPT ![e.s] = [vol |-> e.vol, vvol |-> e.vvol, flow |-> IF e.k = "step" THEN e.flow ELSE <<>>]]
TNext == /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
         /\ LET e == Cases[c].ev[l'] IN Report(c, l', Bad(e)) /\ st' = After(e)
TSpec == TInit /\ [][TNext]_<<c, l, st>>
==============================================================================
