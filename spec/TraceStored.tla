------------------------------ MODULE TraceStored ------------------------------
(* Recorded runs with output files.  A step records its date and what every series holds in each scenario; the end of a run records what
   is in the files. *)
EXTENDS TraceLib, Stored
VARIABLES c, l, hist
K == Cases[c]
Width == K.width
Range(s) == {s[i] : i \in DOMAIN s}
Sized == IF K.combos # <<>> THEN <<Len(K.combos)>> ELSE IF K.sizes = <<>> THEN <<1>> ELSE [i \in DOMAIN K.sizes |-> IF K.slices = <<>> THEN K.sizes[i] ELSE Len(Taken(K.slices[i], K.sizes[i]))]
Dates == [i \in DOMAIN hist |-> hist[i].date]
TimesOk(d, x) == d.time = "" \/ x.times = [i \in DOMAIN hist |-> Append(hist[i].date, hist[i].idx)]
\* every array has a row for each step that was taken
ArraysOk(d, x, e) ==
  /\ Len(x.arrs) = Len(d.series)
  /\ \A k \in DOMAIN d.series : LET a == x.arrs[k] IN
       /\ a.there /\ a.shape = <<e.n>> \o Sized /\ Len(a.rows) = e.n
       /\ \A i \in DOMAIN hist : a.rows[hist[i].idx + 1] = hist[i].v[d.series[k]]
KindOk(d, x) == \A k \in DOMAIN d.series : x.arrs[k].there => x.arrs[k].attr = d.attrs[k]
OnlyOk(d, x) == x.extra = 0
ScenOk(d, x) == d.scen = "" \/ x.scen = [i \in DOMAIN K.sizes |-> <<i, K.sizes[i]>>]
CombosOk(d, x) == d.scen = "" \/ x.combos = K.combos
SlicesOk(d, x) == (d.scen = "" \/ K.combos # <<>>) \/
  IF K.slices = <<>> THEN x.slices = <<>>
  ELSE /\ {r[1] : r \in Range(x.slices)} = DOMAIN K.slices /\ Len(x.slices) = Len(K.slices)
       /\ \A r \in Range(x.slices) : Taken([nostart |-> FALSE, nostop |-> FALSE, start |-> r[2], stop |-> r[3], step |-> r[4]], K.sizes[r[1]]) = Taken(K.slices[r[1]], K.sizes[r[1]])
EnsOk(d, x) == (d.scen = "" \/ d.kind # "t2" \/ K.sizes = <<>>) \/ x.ens = [s \in DOMAIN K.members |-> [i \in DOMAIN K.members[s] |-> K.names[i][K.members[s][i]]]]
\* the flows of the routes from a source or to a sink are its flow; those into a storage less those out of it its change
RouteSum(x, i, s, n, end) == SumOver({r \in DOMAIN x.routes : x.routes[r][end] = n}, [r \in DOMAIN x.routes |-> x.rflows[i][r][s]])
RoutesOk(d, x, e) == ~d.routes \/
  /\ \A r \in DOMAIN x.routes : x.routes[r][1] \in Range(K.sources) \cup Range(K.stores) \cup Range(K.inner) /\ x.routes[r][2] \in Range(K.sinks) \cup Range(K.stores) \cup Range(K.inner)
  /\ x.rshape = <<e.n, Len(x.routes)>> \o Sized
  /\ \A k \in DOMAIN hist : LET i == hist[k].idx + 1 IN \A s \in 1..Width :
       /\ \A j \in DOMAIN K.sources : Near(RouteSum(x, i, s, K.sources[j], 1), hist[k].v[K.sourceflow[j]][s], 60)
       /\ \A j \in DOMAIN K.sinks : Near(RouteSum(x, i, s, K.sinks[j], 2), hist[k].v[K.sinkflow[j]][s], 60)
       /\ \A j \in DOMAIN K.stores : Near(RouteSum(x, i, s, K.stores[j], 2) - RouteSum(x, i, s, K.stores[j], 1), hist[k].v[K.storeflow[j]][s], 60)
\* the tables made from a file: one for every array, with the steps that were taken
FramesOk(d, x) == d.time = "" \/ d.scen = "" \/
  /\ Len(x.frames) = Len(d.series)
  /\ \A f \in Range(x.frames) :
       /\ f.dates = Dates
       /\ K.sizes # <<>> => f.cols = K.members
       /\ \E k \in DOMAIN d.series : f.rows = [i \in DOMAIN hist |-> hist[i].v[d.series[k]]]
  /\ \A k \in DOMAIN d.series : \E f \in Range(x.frames) : f.rows = [i \in DOMAIN hist |-> hist[i].v[d.series[k]]]
TextOk(d, x) == /\ x.header = d.header
                /\ x.rows = [i \in DOMAIN hist |-> <<hist[i].h>> \o [k \in DOMAIN d.series |-> hist[i].v[d.series[k]][d.s]]]
MetaOk(d, x) == x.title = d.title /\ x.meta = d.meta
Bad(d, x, e) == IF d.kind = "csv" THEN Failed([text |-> TextOk(d, x)])
  ELSE Failed([times |-> TimesOk(d, x), arrays |-> ArraysOk(d, x, e), kinds |-> KindOk(d, x), only |-> OnlyOk(d, x), scenarios |-> ScenOk(d, x), combinations |-> CombosOk(d, x),
               slices |-> SlicesOk(d, x), ensembles |-> EnsOk(d, x), routes |-> RoutesOk(d, x, e), frames |-> FramesOk(d, x), meta |-> MetaOk(d, x)])
EndBad(e) == (IF e.broke = e.raised THEN {} ELSE {<<"run", 0, "raised">>}) \cup
             UNION {{<<K.recs[k].kind, k, n>> : n \in Bad(K.recs[k], e.rs[k], e)} : k \in DOMAIN K.recs}
TInit == c \in 1..Len(Cases) /\ l = 0 /\ hist = <<>>
TNext == LET e == Cases[c].ev[l'] IN
  /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
  /\ CASE e.k = "run" -> hist' = <<>>
       [] e.k = "step" -> hist' = Append(hist, e)
       [] e.k = "end" -> Report(c, l', EndBad(e)) /\ UNCHANGED hist
TSpec == TInit /\ [][TNext]_<<c, l, hist>>
===============================================================================
