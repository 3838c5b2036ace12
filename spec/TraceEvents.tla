------------------------------ MODULE TraceEvents -----------------------------
(* Recorded runs with recorders of events.  A step records its first hour, the tables behind the triggers, flows and volumes, and what is
   tracked; the end of a run records every recorder's events and the values of the recorders of their durations and statistics. *)
EXTENDS TraceLib, Events, Record
VARIABLES c, l, hist
K == Cases[c]
Scens == 1..K.width
N == Len(hist)
Cmp(rel, x, t) == CASE rel = "LT" -> x < t [] rel = "GT" -> x > t [] rel = "LE" -> x <= t [] rel = "GE" -> x >= t [] rel = "EQ" -> x = t
On(d, s) == [i \in 1..N |-> LET e == hist[i] IN
   CASE d.src = "index" -> e.ix[d.a][s] # 0
     [] d.src = "par" -> e.par[d.a][s] # 0
     [] d.src = "node" -> Cmp(d.rel, e.fl[d.a][s], d.thr)
     [] d.src = "store" -> Cmp(d.rel, e.vol[s], d.thr)
     [] d.src = "count" -> \E k \in 1..i : hist[k].ix[d.a][s] * 1000 >= d.thr
     [] d.src = "total" -> Total([k \in 1..i |-> hist[k].fl[d.a][s]]) # 0
     [] d.src = "low" -> \E k \in 1..i : hist[k].vol[s] <= d.thr]
Evs(d) == UNION {LET on == On(d, s) IN {<<s, x[1], x[2]>> : x \in Events(on, d.least)} : s \in Scens}
First(x) == hist[x[2]].h
\* an event that is still going at the end of the run ends with its last step
Last(x) == hist[x[3]].h + hist[x[3]].n
Tracked(d, x) == [i \in 1..(x[3] - x[2] + 1) |-> hist[x[2] + i - 1].par[d.track][x[1]]]
EvAgg(f, xs) == IF f.fn = "count" THEN 1000 * Len(xs) ELSE Plain(f, xs)
Days(x) == 1000 * ((Last(x) - First(x)) \div 24)
\* in the order of time
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET f == CHOOSE x \in S : \A y \in S : x[2] <= y[2] IN <<f>> \o InOrder(S \ {f})
PerScen(d, s, F(_), f) == LET xs == InOrder({x \in Evs(d) : x[1] = s}) IN IF xs = <<>> THEN Gap ELSE EvAgg(f, [i \in DOMAIN xs |-> F(xs[i])])
ListOk(d, x) == LET evs == Evs(d) IN
   /\ Len(x.events) = Cardinality(evs)
   /\ {<<v.s, v.from, v.to>> : v \in {x.events[i] : i \in DOMAIN x.events}} = {<<e[1], First(e), Last(e)>> : e \in evs}
TrackOk(d, x) == d.track = 0 \/ \A e \in Evs(d) : \E i \in DOMAIN x.events : x.events[i].s = e[1] /\ x.events[i].from = First(e) /\ x.events[i].vals = Tracked(d, e)
TableOk(d, x) == \A i \in DOMAIN x.events : (d.track = 0 \/ d.ev.fn = "") \/ Near(x.events[i].value, EvAgg(d.ev, x.events[i].vals), 1)
DursOk(d, x) == \A s \in Scens : Near(x.durs[s], PerScen(d, s, Days, d.dur), 1)
StatsOk(d, x) == d.track = 0 \/ \A s \in Scens : Near(x.stats[s], PerScen(d, s, LAMBDA e : EvAgg(d.st, Tracked(d, e)), d.rec), 2)
TotalsOk(d, x) == /\ Near(x.dagg, Agg(d.af, x.durs, d.ign), 2) /\ (d.track = 0 \/ Near(x.sagg, Agg(d.af, x.stats, d.ign), 2))
EndBad(e) == UNION {LET d == K.recs[k] x == e.rs[k] IN
   {<<d.src, k, n>> : n \in Failed([list |-> ListOk(d, x), tracked |-> TrackOk(d, x), table |-> TableOk(d, x), durations |-> DursOk(d, x), statistics |-> StatsOk(d, x), aggregated |-> TotalsOk(d, x)])} : k \in DOMAIN K.recs}
TInit == c \in 1..Len(Cases) /\ l = 0 /\ hist = <<>>
TNext == LET e == Cases[c].ev[l'] IN
  /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
  /\ CASE e.k = "run" -> hist' = <<>>
       [] e.k = "step" -> hist' = Append(hist, e)
       [] e.k = "refuse" -> Report(c, l', IF e.refused THEN {} ELSE {<<"refused">>}) /\ UNCHANGED hist
       [] e.k = "end" -> Report(c, l', EndBad(e)) /\ UNCHANGED hist
TSpec == TInit /\ [][TNext]_<<c, l, hist>>
===============================================================================
