----------------------------- MODULE TraceSummary -----------------------------
(* Recorded reports about real runs.  "step": a timestep and what was said about the progress; "links": the links made from the stored flows;
   "result": the result object; "profile": the entries of a profile; "setting": a setting of a solver;
   "density": an estimated density of a storage; "assert": a run with an assertion.                                     *)
EXTENDS TraceLib, Summary, Density
VARIABLES c, l, last
K == Cases[c]
S == K.sum
StepBad(e) == LET P == Seen(e.i, e.n) IN
  Failed([due |-> IF e.said = <<>> THEN \E p \in P : p <= last ELSE e.said[1] \in P /\ e.said[1] > last, once |-> Len(e.said) <= 1,
          speed |-> e.said = <<>> \/ e.speed = (e.said[1] >= 1)])
Drop(e) == {e.drop[k] : k \in DOMAIN e.drop}
LinksBad(e) ==
  LET val == [r \in DOMAIN S.routes |-> Amount(S.flow, r, e.times, e.tagg, e.combs, e.sagg)]
      L == Links(S.routes, e.ren, Drop(e), e.circ, e.thr, val)
      G == {e.got[k] : k \in DOMAIN e.got}
  IN Failed([ends |-> {x.ends : x \in L} = {g.ends : g \in G}, once |-> Cardinality({g.ends : g \in G}) = Len(e.got),
             values |-> \A x \in L : \A g \in G : g.ends = x.ends => Near(g.value, x.value, 20),
             asked |-> e.calls = <<>> \/ (Len(e.calls) = Len(S.routes) /\ \A r \in DOMAIN S.routes : <<e.calls[r][1], e.calls[r][2]>> = S.routes[r] /\ Near(e.calls[r][3], val[r], 10))])
ResultBad(e) == Failed([steps |-> e.steps = e.n, combinations |-> e.combs = e.ncombs, solver |-> e.solver = e.asked, last |-> e.last = e.end, table |-> e.table = e.fields, settings |-> e.settings = e.really])
Count(q, x) == Cardinality({k \in DOMAIN q : q[k] = x})
ProfileBad(e) == Failed([entries |-> Len(e.got) = Len(e.want) /\ \A k \in DOMAIN e.want : Count(e.got, e.want[k]) = Count(e.want, e.want[k]), order |-> e.nodesfirst, table |-> e.table = Len(e.got), times |-> e.nonneg])
SettingBad(e) == Failed([setting |-> e.got = Setting(e.kw, e.env), untouched |-> e.same])
\* a density: the sample is made from the volumes of the run; of a normalised one the target is the control curve, and the grid is what is above it
DensityBad(e) ==
  LET V == [t \in DOMAIN e.vol |-> [s \in DOMAIN e.vol[t] |-> IF e.norm THEN Relative(e.vol[t][s], e.cc[t][s]) ELSE e.vol[t][s]]]
      A == Sample(V, e.group, e.how)
      m == Len(e.pdf)
      lo == IF e.norm THEN -10000 ELSE 0
      slack == Slack(m, e.h)
  IN Failed([points |-> m = e.m /\ \A k \in 1..m : Near(e.grid[k], ((k - 1) * 10000) \div (m - 1), 1), sample |-> e.n = Cardinality(DOMAIN A), between |-> Between(A, lo, IF e.norm THEN 0 ELSE e.target, e.h, e.refl, e.p),
             nonneg |-> \A k \in 1..m : e.pdf[k] >= 0,
             area |-> slack < 0 \/ e.norm \/ Near(Area(e.pdf, 1, e.at, m), e.p, slack),
             total |-> slack < 0 \/ ~e.refl \/ e.h > 2500 \/ Near(Area(e.pdf, 1, m, m) + (IF e.norm THEN e.p ELSE 0), 10000, slack + 60),
             same |-> e.values = e.pdf])
AssertBad(e) == LET W == Wrong(e.exp, e.act) IN
  Failed([fails |-> e.failed = (W # {}), where |-> ~e.failed \/ W = {} \/ e.at = FirstWrong(e.exp, e.act), all |-> e.failed \/ e.steps = Len(e.exp)])
TInit == c \in 1..Len(Cases) /\ l = 0 /\ last = -1
TNext == LET e == Cases[c].ev[l'] IN
  /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
  /\ last' = IF e.k = "step" THEN (IF e.i = 1 /\ e.said = <<>> THEN -1 ELSE IF e.said = <<>> THEN last ELSE e.said[1]) ELSE IF e.k = "begin" THEN -1 ELSE last
  /\ Report(c, l', CASE e.k = "step" -> StepBad(e) [] e.k = "links" -> LinksBad(e) [] e.k = "result" -> ResultBad(e) [] e.k = "profile" -> ProfileBad(e) [] e.k = "setting" -> SettingBad(e) [] e.k = "density" -> DensityBad(e) [] e.k = "assert" -> AssertBad(e) [] OTHER -> {})
TSpec == TInit /\ [][TNext]_<<c, l, last>>
===============================================================================
