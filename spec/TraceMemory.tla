----------------------------- MODULE TraceMemory -----------------------------
(* Recorded runs with delay nodes and parameters that remember flows; one event is one timestep of one scenario: what the parameters
   gave when it was planned, the flows that resulted, and the previous flows the nodes showed while planning and afterwards.  Flows are thousandths. *)
EXTENDS TraceLib, Memory
VARIABLES c, l, st
Case == Cases[c]
Nn == Len(Case.nodes)
Empty == [s \in 1..Cases[c].S |-> [f |-> <<>>, d |-> <<>>]]
TInit == c \in 1..Len(Cases) /\ l = 0 /\ st = [s \in 1..Cases[c].S |-> [f |-> <<>>, d |-> <<>>]]
\* history of one node's flow / shortfall
Hist(s, n) == [t \in 1..Len(s.f) |-> s.f[t][n]]
Short(s, n) == [t \in 1..Len(s.d) |-> s.d[t][n]]
PBad(e, s, p) ==
  LET m == Case.mem[p] v == e.mem[p] h == Hist(s, m.node) IN
  CASE m.k = "delay" -> ~Near(v, Delayed(h, m.n[e.run], m.init), 0)
    [] m.k = "flow" -> ~Near(v, Previous(h, m.init), 0)
    [] m.k = "deficit" -> ~Near(v, Previous(Short(s, m.node), 0), 1)
    [] m.k = "mean" -> ~Near(v * MeanCount(h, m.n[e.run]), MeanSum(h, m.n[e.run], m.init), 1 + MeanCount(h, m.n[e.run]))
NBad(e, s, n) ==
  LET k == Case.nodes[n] h == Hist(s, n) IN
  Failed([previous_flow_planning |-> e.prev0[n] = Previous(h, 0),
          previous_flow |-> e.prev[n] = e.f[n],
          delay_node |-> k.k # "delay" \/ (/\ e.f[n] >= 0
                                          /\ Near(e.f[n], Delayed(Hist(s, k.out), k.n[e.run], k.init), 1)
                                          /\ Near(e.f[k.out], e.f[k.up], 1) /\ Near(e.f[k.inp], e.f[n], 0)),
          sum_of_members |-> k.k # "sum" \/ Near(e.f[n], SumLast([i \in 1..Len(k.of) |-> e.f[k.of[i]]], Len(k.of)), 1 + Len(k.of))])
Bad(e) == IF e.k = "reset" THEN {} ELSE
  UNION {NBad(e, st[e.s], n) : n \in 1..Nn} \cup {Case.mem[p].k : p \in {p \in 1..Len(Case.mem) : PBad(e, st[e.s], p)}}
After(e) == IF e.k = "reset" THEN Empty ELSE [st EXCEPT ![e.s] = [f |-> Append(@.f, e.f), d |-> Append(@.d, e.d)]]
TNext == /\ l < Len(Case.ev) /\ l' = l + 1 /\ c' = c
         /\ LET e == Case.ev[l'] IN Report(c, l', Bad(e)) /\ st' = After(e)
TSpec == TInit /\ [][TNext]_<<c, l, st>>
===============================================================================
