------------------------------- MODULE Network -------------------------------
(* One allocation step of a pywr network as the linear problem it documents.
   A network: nodes with a kind ("in", "out", "link", "sto"), edges <<u, v>> and, on top of them, virtual storages,
   aggregated nodes and conversions between domains.  A solution assigns a flow x[e] >= 0 to every edge.  All
   conditions are rows lo <= Sum_e a[e] x[e] <= hi; coefficients are hundredths (K = 100).
   Step data d: lo/hi (limits per node), c (cost per node), slo/shi (least and greatest net inflow per node that is a
   storage), vhi (greatest use per virtual storage), glo/ghi (limits per aggregated node), gf (factors, hundredths). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS K
NInf == 2000000000
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(f) == SumTo(f, Len(f))
Dot(a, x) == SumSeq([i \in 1..Len(a) |-> IF a[i] = 0 THEN 0 ELSE a[i] * x[i]])

\* the edges that carry the flow of a node: those arriving at an output, those leaving an input or a link
In(net, e, n) == IF net.edges[e][2] = n THEN 1 ELSE 0
Out(net, e, n) == IF net.edges[e][1] = n THEN 1 ELSE 0
Coef(net, e, n) == CASE net.kind[n] = "out" -> In(net, e, n)
                     [] net.kind[n] = "sto" -> In(net, e, n) - Out(net, e, n)
                     [] OTHER -> Out(net, e, n)
NodeCoefs(net, n) == [e \in 1..Len(net.edges) |-> Coef(net, e, n)]
NodeFlow(net, x, n) == Dot(NodeCoefs(net, n), x)
FlowNodes(net) == SelectSeq([n \in 1..Len(net.kind) |-> n], LAMBDA n : net.kind[n] # "sto")
OfKind(net, k) == SelectSeq([n \in 1..Len(net.kind) |-> n], LAMBDA n : net.kind[n] = k)
Scaled(net, n, k) == [e \in 1..Len(net.edges) |-> k * Coef(net, e, n)]
\* Sum over the members of factor * flow, as edge coefficients
Weighted(net, ms, ws) == [e \in 1..Len(net.edges) |-> SumSeq([i \in 1..Len(ms) |-> ws[i] * Coef(net, e, ms[i])])]

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

LimitRows(net, d) == LET ns == FlowNodes(net) IN
  [i \in 1..Len(ns) |-> [a |-> Scaled(net, ns[i], K), lo |-> d.lo[ns[i]], hi |-> d.hi[ns[i]], t |-> "limit"]]
BalanceRows(net, d) == LET ns == OfKind(net, "link") IN
  [i \in 1..Len(ns) |-> [a |-> [e \in 1..Len(net.edges) |-> K * (In(net, e, ns[i]) - Out(net, e, ns[i]))], lo |-> 0, hi |-> 0, t |-> "balance"]]
StorageRows(net, d) == LET ns == OfKind(net, "sto") IN
  [i \in 1..Len(ns) |-> [a |-> Scaled(net, ns[i], K), lo |-> d.slo[ns[i]], hi |-> d.shi[ns[i]], t |-> "storage"]]
\* an inactive virtual storage has vhi = infinite and does not limit at all
VirtualRows(net, d) ==
  [i \in 1..Len(net.vs) |-> [a |-> Weighted(net, net.vs[i].nodes, net.vs[i].f), lo |-> -NInf, hi |-> d.vhi[i], t |-> "virtual"]]
AggRows(net, d) ==
  [i \in 1..Len(net.agg) |-> [a |-> Weighted(net, net.agg[i].nodes, net.agg[i].w), lo |-> d.glo[i], hi |-> d.ghi[i], t |-> "agg"]]
RatioRows(net, d) == Concat([i \in 1..Len(net.agg) |->
  LET f == d.gf[i] m == net.agg[i].nodes IN
  [j \in 1..(IF f = <<>> THEN 0 ELSE Len(m) - 1) |->
     [a |-> [e \in 1..Len(net.edges) |-> f[j + 1] * Coef(net, e, m[1]) - f[1] * Coef(net, e, m[j + 1])], lo |-> 0, hi |-> 0, t |-> "ratio"]]])
\* the flow into an output equals the flow out of the inputs it feeds in another domain, each divided by its conversion factor (inv = 100 / factor)
ConvRows(net, d) ==
  [i \in 1..Len(net.conv) |-> [a |-> [e \in 1..Len(net.edges) |->
       SumSeq([j \in 1..Len(net.conv[i].ins) |-> net.conv[i].inv[j] * Out(net, e, net.conv[i].ins[j])]) - K * In(net, e, net.conv[i].o)],
     lo |-> 0, hi |-> 0, t |-> "conversion"]]
Rows(net, d) == LimitRows(net, d) \o BalanceRows(net, d) \o StorageRows(net, d) \o VirtualRows(net, d)
                \o AggRows(net, d) \o RatioRows(net, d) \o ConvRows(net, d)
\* cost of a unit of flow on an edge: the costs of the nodes whose flow it carries; a storage pays for what it takes in
\* and earns that back for what it releases
EdgeCost(net, d, e) == SumSeq([n \in 1..Len(net.kind) |-> IF net.kind[n] = "link" THEN Out(net, e, n) * d.c[n] ELSE Coef(net, e, n) * d.c[n]])

Satisfies(rs, x) ==
  \A i \in 1..Len(rs) : LET v == Dot(rs[i].a, x) IN v >= (IF rs[i].lo = -NInf THEN v ELSE K * rs[i].lo) /\ v <= (IF rs[i].hi = NInf THEN v ELSE K * rs[i].hi)
Feasible(net, d, x) == Satisfies(Rows(net, d), x)
Cost(net, d, x) == SumSeq([e \in 1..Len(net.edges) |-> EdgeCost(net, d, e) * x[e]])

(* Certificates: multipliers y of the rows.  If every edge's reduced cost is non-negative, the dual objective bounds the
   cost of every feasible solution from below; with zero costs, a positive dual objective shows that there is none. *)
Reduced(net, d, rs, y, e, withcost) == (IF withcost THEN K * EdgeCost(net, d, e) ELSE 0) - SumSeq([i \in 1..Len(rs) |-> IF rs[i].a[e] = 0 THEN 0 ELSE rs[i].a[e] * y[i]])
DualTerm(r, yi) == IF yi = 0 THEN 0 ELSE IF yi > 0 THEN yi * r.lo ELSE yi * r.hi
DualBounded(rs, y) == \A i \in 1..Len(rs) : (y[i] > 0 => rs[i].lo # -NInf) /\ (y[i] < 0 => rs[i].hi # NInf)
DualObj(rs, y) == SumSeq([i \in 1..Len(rs) |-> DualTerm(rs[i], y[i])])
===============================================================================
