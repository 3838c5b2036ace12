----------------------------- MODULE TraceVirtual -----------------------------
(* Recorded runs with calendar and rolling virtual storages.  Volumes and flows are thousandths.  An event is one timestep of one
   scenario seen by every storage: its volume and activity while planning, the flows of its nodes, its volume afterwards. *)
EXTENDS TraceLib, Virtual
VARIABLES c, l, st
Vs == Cases[c].vs
Fresh(vol, h) == [vol |-> vol, h |-> h, prev |-> 0]
TInit == c \in 1..Len(Cases) /\ l = 0 /\ st = [first |-> 0, n |-> <<>>, s |-> [s \in 1..Cases[c].S |-> [i \in 1..Len(Cases[c].vs) |-> Fresh(0, <<>>)]]]
Cap(v, pre) == Max2(pre - v.min, 0)
\* sums of factors (hundredths) times flows (thousandths)
RECURSIVE Dot(_, _)
Dot(f, x) == IF f = <<>> THEN 0 ELSE f[1] * x[1] + Dot(Tail(f), Tail(x))
Full(v, e, isfirst) == IF v.toinit \/ (isfirst /\ v.maxparam) THEN v.init ELSE v.max[e.s]
Expect(v, e, s) == LET isfirst == s.prev = 0 IN IF Replenished(v, IF isfirst THEN e.date ELSE st.first, s.prev, e.date) THEN Full(v, e, isfirst) ELSE s.vol
BadOne(e, v, n, o, s) ==
  LET days == e.days
      act == Active(v, e.date)
      pre == Expect(v, e, s)
      used == IF act THEN o.use ELSE 0
      want == RDiv(Dot(v.f, o.dem), 100) * days
      back == IF v.kind = "rolling" THEN Held(n, v.max[e.s], v.init, Append(s.h, o.use)) - Held(n, v.max[e.s], v.init, s.h) + o.use ELSE 0
  IN Failed([
       planned_volume |-> Near(o.pre, pre, 1),
       active |-> o.act = act,
       use_is_flows |-> Near(o.use, RDiv(Dot(v.f, o.x), 100) * days, 2 + 4 * days),
       cap |-> ~act \/ o.use <= Cap(v, pre) + 1 + days \div 4,
       no_limit_of_its_own |-> Near(o.use, IF act THEN Min2(want, Cap(v, pre)) ELSE want, 3 + 4 * days),
       volume |-> Near(o.vol, Min2(pre - used + back, v.max[e.s]), 2),
       flow |-> Near(o.flow, IF act THEN 0 - RDiv(Dot(v.f, o.x), 100) ELSE 0, 4),
       rolling_held |-> v.kind # "rolling" \/ Near(o.vol, Held(n, v.max[e.s], v.init, Append(s.h, o.use)), 3 + n),
       rolling_window |-> v.kind # "rolling" \/ Len(s.h) + 1 < n \/ SumLast(Append(s.h, o.use), n) <= v.max[e.s] + 3 + n,
       \* the proportion given at the start stands for every scenario's maximum until the storage is first used
       proportion |-> v.max[e.s] = 0 \/ (v.scen /\ ~act) \/ Near(RDiv(o.pc * (v.max[e.s] \div 100), 100), o.vol, 101 + v.max[e.s] \div 10000)])
Bad(e) ==
  IF e.k = "reset" THEN Failed([initial |-> \A i \in 1..Len(Vs) : \A s \in 1..Cases[c].S : Near(e.vol[i][s], Vs[i].init, 1)])
  ELSE UNION {BadOne(e, Vs[i], st.n[i], e.o[i], st.s[e.s][i]) : i \in 1..Len(Vs)}
After(e) ==
  IF e.k = "reset" THEN [first |-> 0, n |-> e.n, s |-> [s \in 1..Cases[c].S |-> [i \in 1..Len(Vs) |-> Fresh(e.vol[i][s], <<>>)]]]
  ELSE [first |-> IF st.first = 0 THEN e.date ELSE st.first, n |-> st.n,
        s |-> [st.s EXCEPT ![e.s] = [i \in 1..Len(Vs) |-> [vol |-> e.o[i].vol, prev |-> e.date,
                                      h |-> IF Vs[i].kind = "rolling" THEN Append(st.s[e.s][i].h, e.o[i].use) ELSE <<>>]]]]
TNext == /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
         /\ LET e == Cases[c].ev[l'] IN Report(c, l', Bad(e)) /\ st' = After(e)
TSpec == TInit /\ [][TNext]_<<c, l, st>>
===============================================================================
