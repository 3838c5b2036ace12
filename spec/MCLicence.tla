------------------------------ MODULE MCLicence -------------------------------
(* Years of a few days, steps of any length, any use within what the licence offers. *)
EXTENDS Licence, Sequences, TLC
CONSTANTS Lens, Steps, Amount, Rates
VARIABLES day, step, year, rem, prev, used, cross, run
vars == <<day, step, year, rem, prev, used, cross, run>>
Years == DOMAIN Lens
RECURSIVE Before(_)
Before(y) == IF y = 1 THEN 0 ELSE Before(y - 1) + Lens[y - 1]
YearOfDay(d) == CHOOSE y \in Years : Before(y) < d /\ d <= Before(y) + Lens[y]
Last == Before(Len(Lens)) + Lens[Len(Lens)]
Nth(d) == d - Before(YearOfDay(d))
Init == day \in 1..Lens[1] /\ step \in Steps /\ year = 0 /\ rem = Amount /\ prev = 0 /\ used = [y \in Years |-> 0] /\ cross = [y \in Years |-> 0] /\ run = 1
\* the account as it stands when the step's rate is offered
Now == IF year # YearOfDay(day) THEN Opening(Amount, Nth(day), prev) ELSE rem
Offer == Even(Now, Lens[YearOfDay(day)], Nth(day))
Own(y) == LET a == IF day > Before(y) THEN day ELSE Before(y) + 1
              b == IF day + step - 1 < Before(y) + Lens[y] THEN day + step - 1 ELSE Before(y) + Lens[y] IN IF b < a THEN 0 ELSE b - a + 1
Step(f) == /\ day + step - 1 <= Last
           /\ f \in {r \in Rates : r <= Offer} \cup {Offer}
           /\ rem' = Debit(Now, f, step) /\ prev' = f /\ year' = YearOfDay(day) /\ day' = day + step
           /\ used' = [y \in Years |-> used[y] + f * Own(y)]
           /\ cross' = [y \in Years |-> IF y > YearOfDay(day) THEN f * Own(y) ELSE cross[y]]
           /\ UNCHANGED <<step, run>>
Rerun == run = 1 /\ year # 0 /\ run' = 2 /\ day' \in 1..Lens[1] /\ rem' = Amount /\ prev' = 0 /\ used' = [y \in Years |-> 0] /\ cross' = [y \in Years |-> 0] /\ UNCHANGED <<year, step>>
Next == Rerun \/ (day <= Last /\ \E f \in Rates \cup {Offer} : Step(f))
Spec == Init /\ [][Next]_vars
Pos == rem >= 0 /\ rem <= Amount
\* no year is charged more than the amount, but for what a step begun in the year before may use alone
Capped == \A y \in Years : used[y] <= Amount \/ (used[y] = cross[y])
\* a licence that starts its first year in full: nothing was used before the run
Account == \A y \in Years : y = year /\ (\E d \in 1..Last : d = day - step /\ YearOfDay(d) = y) => (rem = 0 \/ rem + used[y] + (IF day - 1 > Before(y) + Lens[y] THEN prev * (day - 1 - Before(y) - Lens[y]) ELSE 0) = Amount)
Offers == day <= Last => Offer >= 0 /\ Offer * Left(Lens[YearOfDay(day)], Nth(day)) <= Now
LensDef == <<4, 5, 4>>
===============================================================================
