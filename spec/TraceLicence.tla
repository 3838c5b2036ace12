----------------------------- MODULE TraceLicence -----------------------------
(* Recorded runs with licences.  A step records its first day and length, each licence's value and its node's flow in every
   scenario.  Volumes and flows are in hundred-thousandths; the accounts kept here are exact to err half units. *)
EXTENDS TraceLib, Licence
C == INSTANCE Calendar
F == INSTANCE Fixed
VARIABLES c, l, rem, err, prev, year
K == Cases[c]
Lics == DOMAIN K.lics
Scens == 1..K.width
New(e) == year # C!YearOf(e.o)
Nth(e) == C!DayOfYear(e.o)
Len2(e) == C!DaysInYear(C!YearOf(e.o))
Rem(e, i, s) == IF New(e) THEN Opening(K.lics[i].amount, Nth(e), prev[i][s]) ELSE rem[i][s]
Err(e, i) == IF New(e) THEN IF prev[i] = [s \in Scens |-> 0] THEN 0 ELSE Nth(e) - 1 ELSE err[i]
Rate(e, i, s) == Even(Rem(e, i, s), Len2(e), Nth(e))
Off(e, i) == 2 + (Err(e, i) \div (2 * Left(Len2(e), Nth(e))))
Expected(e, i) == F!R(K.lics[i].amount, Len2(e))
\* value of the decaying licences, in thousandths, at rate r
Exponential(d, e, i, r) == LET y == F!Dvd(F!Dvd(r, Expected(e, i)), d.k) IN IF y > 6000 THEN 0 ELSE F!Mul(d.max, F!Exp(-y))
Hyperbola(d, e, i, r) == IF r <= 0 THEN INF ELSE IF r >= Expected(e, i) THEN F!Dvd(d.max, F!Dvd(r, Expected(e, i)))
                         ELSE IF r < Expected(e, i) \div 100 THEN INF ELSE F!Mul(d.max, F!Dvd(Expected(e, i), r))
ExpTol(d) == 3 + ((d.max * (4 + (2000 \div d.k))) \div 1000)
HypTol(d, x) == 3 + ((d.max + x) \div 400)
ValueOk(e, i, s) ==
  LET d == K.lics[i] r == Rate(e, i, s) o == Off(e, i) v == e.v[i][s] IN
  CASE d.kind = "daily" -> e.w[i][s] = d.amount
    [] d.kind = "total" -> Near(e.w[i][s], rem[i][s], 2 + err[i])
    [] d.kind = "annual" -> Near(e.w[i][s], r, o)
    [] d.kind = "exp" -> Exponential(d, e, i, r + o) - ExpTol(d) <= v /\ v <= Exponential(d, e, i, IF r <= o THEN 0 ELSE r - o) + ExpTol(d)
    [] d.kind = "hyp" -> LET lo == Hyperbola(d, e, i, r + o) hi == Hyperbola(d, e, i, IF r <= o THEN 0 ELSE r - o) IN
                         /\ (IF lo = INF THEN v >= d.max * 90 ELSE v >= lo - HypTol(d, lo))
                         /\ (hi = INF \/ v <= hi + HypTol(d, hi))
\* a node governed by its licence takes no more than what it gives
FlowOk(e, i, s) == ~K.lics[i].governs \/ e.w[i][s] = INF \/ e.f[i][s] <= e.w[i][s] + 3
StepBad(e) == {<<"value", K.lics[x[1]].kind, x>> : x \in {y \in Lics \X Scens : ~ValueOk(e, y[1], y[2])}}
              \cup {<<"flow", K.lics[x[1]].kind, x>> : x \in {y \in Lics \X Scens : ~FlowOk(e, y[1], y[2])}}
Full == [i \in Lics |-> [s \in Scens |-> K.lics[i].amount]]
None == [i \in Lics |-> [s \in Scens |-> 0]]
Daily(i) == K.lics[i].kind = "daily"
TInit == c \in 1..Len(Cases) /\ l = 0 /\ rem = <<>> /\ err = <<>> /\ prev = <<>> /\ year = 0
TNext == LET e == Cases[c].ev[l'] IN
  /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
  /\ IF e.k = "run" THEN rem' = Full /\ err' = [i \in Lics |-> 0] /\ prev' = None /\ year' = 0
     ELSE /\ Report(c, l', StepBad(e))
          /\ rem' = [i \in Lics |-> [s \in Scens |-> IF Daily(i) THEN 0 ELSE Debit(IF K.lics[i].kind = "total" THEN rem[i][s] ELSE Rem(e, i, s), e.f[i][s], e.days)]]
          /\ err' = [i \in Lics |-> (IF K.lics[i].kind = "total" THEN err[i] ELSE Err(e, i)) + e.days]
          /\ prev' = e.f /\ year' = C!YearOf(e.o)
TSpec == TInit /\ [][TNext]_<<c, l, rem, err, prev, year>>
===============================================================================
