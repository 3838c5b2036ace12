------------------------------- MODULE MCAnnual -------------------------------
(* Years of a few days and steps of any length: what is accumulated step by step against what the history gives. *)
EXTENDS Annual, TLC
CONSTANTS Lens, Sizes, Flows, Indices, Threshold, From, To, Horizon
VARIABLES day, size, table, this, counts, top, years, year, hist, run
vars == <<day, size, table, this, counts, top, years, year, hist, run>>
Years == DOMAIN Lens
RECURSIVE Before(_)
Before(y) == IF y = 1 THEN 0 ELSE Before(y - 1) + Lens[y - 1]
YearOfDay(d) == CHOOSE y \in Years : Before(y) < d /\ d <= Before(y) + Lens[y]
Last == Before(Len(Lens)) + Lens[Len(Lens)]
Nth(d) == d - Before(YearOfDay(d))
Share(y, d, n) == Overlap(d, n, Before(y) + 1, Before(y) + Lens[y] + 1)
Zero == [y \in Years |-> 0]
Fresh == table' = Zero /\ this' = 0 /\ counts' = Zero /\ top' = -1 /\ years' = 0 /\ year' = 0 /\ hist' = <<>>
Init == /\ day \in 1..Lens[1] /\ size \in Sizes /\ table = Zero /\ this = 0 /\ counts = Zero /\ top = -1 /\ years = 0 /\ year = 0 /\ hist = <<>> /\ run = 1
Step(f, ix) ==
  LET y == YearOfDay(day) new == y # year here == How(Exceeds(ix, Threshold) /\ Counted(1, Nth(day), {}, From, To)) high == IF ix[1] >= ix[2] THEN ix[1] ELSE ix[2] IN
  /\ day <= Last /\ Len(hist) < Horizon
  /\ table' = [z \in Years |-> table[z] + f * Share(z, day, size)]
  \* a count in hand is put away when the year changes
  /\ counts' = IF new /\ year # 0 THEN [counts EXCEPT ![year] = this] ELSE counts
  /\ this' = (IF new THEN 0 ELSE this) + here
  /\ years' = IF new /\ year # 0 /\ top >= Threshold THEN years + 1 ELSE years
  /\ top' = IF new THEN high ELSE IF high > top THEN high ELSE top
  /\ year' = y /\ hist' = Append(hist, [d |-> day, f |-> f, ix |-> ix]) /\ day' = day + size /\ UNCHANGED <<size, run>>
Rerun == run = 1 /\ hist # <<>> /\ run' = 2 /\ day' \in 1..Lens[1] /\ size' = size /\ Fresh
Next == Rerun \/ \E f \in Flows : \E i, j \in Indices : Step(f, <<i, j>>)
Spec == Init /\ [][Next]_vars
\* as it is once the run is finished
Counts == IF year = 0 THEN counts ELSE [counts EXCEPT ![year] = this]
YearsOver == IF year # 0 /\ top >= Threshold THEN years + 1 ELSE years
RECURSIVE SumOver(_, _)
SumOver(F(_), n) == IF n = 0 THEN 0 ELSE F(n) + SumOver(F, n - 1)
Splits == \A n \in DOMAIN hist : hist[n].d + size - 1 <= Last => SumOver(LAMBDA y : Share(y, hist[n].d, size), Len(Lens)) = size
Totals == \A y \in Years : table[y] = SumOver(LAMBDA n : hist[n].f * Share(y, hist[n].d, size), Len(hist))
Once == \A y \in Years : Counts[y] = Cardinality({n \in DOMAIN hist : YearOfDay(hist[n].d) = y /\ Exceeds(hist[n].ix, Threshold) /\ From <= Nth(hist[n].d) /\ Nth(hist[n].d) <= To})
Over == YearsOver = Cardinality({y \in Years : \E n \in DOMAIN hist : YearOfDay(hist[n].d) = y /\ Exceeds(hist[n].ix, Threshold)})
LensDef == <<3, 4, 3>>
===============================================================================
