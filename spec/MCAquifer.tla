------------------------------ MODULE MCAquifer ------------------------------
(* Small aquifers under any recharge and abstraction. *)
EXTENDS Aquifer
CONSTANTS Aquifers(_), Recharges, Abstractions, Days, Len_
VARIABLES aq, v, n, last
Some == {[lev |-> l, vol |-> w, at |-> a, tr |-> <<1, 2>>, co |-> 10] : l \in {<<0, 4>>, <<1, 2, 6>>, <<0, 3, 4>>}, w \in {<<0, 8>>, <<2, 4, 12>>, <<0, 3, 9>>}, a \in {<< <<1000, 2500>> >>, << <<0, 1000>>, <<3500, 3000>> >>}}
Fitting == {a \in Some : Len(a.lev) = Len(a.vol)}
FewAquifers(x) == {a \in Fitting : Len(a.at) = 2}
AllAquifers(x) == Fitting
MInit == aq \in Aquifers(0) /\ v \in {1000 * x : x \in (Dead(aq) \div 1000)..(Full(aq) \div 1000)} /\ n = 0 /\ last = [dv |-> 0, bal |-> 0, d |-> 1]
MNext == \E r \in Recharges : \E a \in Abstractions : \E d \in Days :
  /\ n < Len_ /\ CanRun(aq, v, r, d)
  /\ v' = Next_(aq, v, r, a, d) /\ n' = n + 1 /\ aq' = aq
  /\ last' = [dv |-> v' - v, bal |-> Given(aq, v, r, a, d) - Taken(aq, v, r, a, d) - Out(aq, v), d |-> d]
MSpec == MInit /\ [][MNext]_<<aq, v, n, last>>
Bounded == Dead(aq) <= v /\ v <= Full(aq)
Conserved == last.dv = last.d * last.bal
RoundTrip == LET x == Volume(aq, Level(aq, v)) - v IN -8 <= x /\ x <= 8     \* up to the rounding of the level
HigherGivesMore == \A w \in {1000 * x : x \in (Dead(aq) \div 1000)..(Full(aq) \div 1000)} : w > v => Level(aq, w) >= Level(aq, v) /\ Out(aq, w) >= Out(aq, v)
DryBelow == /\ (\A i \in DOMAIN aq.at : \A k \in DOMAIN aq.at[i] : Level(aq, v) <= aq.at[i][k]) => Out(aq, v) = 0
            /\ (\E i \in DOMAIN aq.at : \E k \in DOMAIN aq.at[i] : Level(aq, v) > aq.at[i][k] + 5) => Out(aq, v) > 0
Within == Level(aq, v) \in (1000 * aq.lev[1])..(1000 * aq.lev[Len(aq.lev)])
Wishes == \A r \in Recharges : \A a \in Abstractions : \A d \in Days : CanRun(aq, v, r, d) =>
  /\ 0 <= Taken(aq, v, r, a, d) /\ Taken(aq, v, r, a, d) <= a /\ 0 <= Given(aq, v, r, a, d) /\ Given(aq, v, r, a, d) <= r
  \* nothing that is wanted is left while there is room
  /\ (Taken(aq, v, r, a, d) < a => Next_(aq, v, r, a, d) < Dead(aq) + d)
  /\ (Given(aq, v, r, a, d) < r => Next_(aq, v, r, a, d) > Full(aq) - d)
=============================================================================
