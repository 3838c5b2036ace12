----------------------------- MODULE TraceCombine -----------------------------
(* Recorded runs with parameters combining others.  A case lists the definitions of its parameters (before each run they may change,
   in an event of their own); every timestep records the value of every parameter in every scenario, and the volume and flows
   the parameters could see.  Each parameter is judged against the values of those it reads. *)
EXTENDS TraceLib, Calendar, Combine
VARIABLES c, l, ds
K == Cases[c]
Scens == 1..Len(K.members)
World(e, s) == [i |-> e.i, s |-> s, tab |-> K.tab, mem |-> K.members[s], vol |-> e.vol[s], cap |-> K.cap, prev |-> e.prev[s],
                year |-> YearOf(e.o), first |-> e.first]
Ok(d, w, V, v) ==
  CASE Outside(d, w, V) -> ~Inside2(d, w, V)
    \* within rounding of the end of the table either its value or the one to fill with
    [] (d.op = "interp" /\ d.fill # <<>> /\ Abs(Source(d, w, V) - d.xs[1]) <= 1) -> Near(v, d.ys[1], Slack(d, w, V)) \/ Near(v, d.fill[1], 1)
    [] (d.op = "interp" /\ d.fill # <<>> /\ Abs(Source(d, w, V) - d.xs[Len(d.xs)]) <= 1) -> Near(v, d.ys[Len(d.xs)], Slack(d, w, V)) \/ Near(v, d.fill[2], 1)
    [] Beyond(d, V) -> FALSE
    [] (d.op = "hydro" /\ d.head # 0 /\ Abs(V[d.head] - d.n[1] - d.n[2]) <= 2) -> TRUE
    [] d.op = "hydro" /\ d.head # 0 /\ Abs(V[d.head] - d.n[1]) <= 200 /\ d.n[2] < 200 -> TRUE
    [] OTHER -> Near(v, Give(d, w, V), Slack(d, w, V))
Col(e, s) == [i \in DOMAIN ds |-> e.v[i][s]]
Bad(e) ==
  CASE e.k = "step" -> {<<ds[x[1]].op, ds[x[1]].fn, x[2]>> : x \in {y \in (DOMAIN ds) \X Scens : ~Ok(ds[y[1]], World(e, y[2]), Col(e, y[2]), e.v[y[1]][y[2]])}}
                       \cup {<<"index", i>> : i \in {j \in DOMAIN e.ix : \E s \in Scens : e.ix[j] # <<>> /\ e.ix[j][s] * 1000 # e.v[j][s]}}
    \* a run stops only where a parameter has no value: a look-up outside its table or an index beyond the parameters to pick from
    [] e.k = "stop" -> Failed([cause |-> \E i \in DOMAIN ds : \E s \in Scens : LET w == World(e, s) V == Col(e, s) IN Beyond(ds[i], V) \/ ~Inside2(ds[i], w, V)])
    [] e.k = "set" -> {}
Kept(e) == IF e.k = "set" THEN e.ds ELSE ds
TInit == c \in 1..Len(Cases) /\ l = 0 /\ ds = Cases[c].ds
TNext == l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c /\ ds' = Kept(Cases[c].ev[l']) /\ Report(c, l', Bad(Cases[c].ev[l']))
TSpec == TInit /\ [][TNext]_<<c, l, ds>>
===============================================================================
