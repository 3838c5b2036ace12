------------------------------- MODULE MCBands --------------------------------
(* A quantity moves; curves of two levels and a threshold with and without ratchet watch it over a run and the next. *)
EXTENDS Bands, FiniteSets, TLC
CONSTANTS Levels, Rels
VARIABLES x, c1, c2, rel, t, on, plain, hist, run
vars == <<x, c1, c2, rel, t, on, plain, hist, run>>
L == {k * 1280 : k \in Levels}
Init == x \in L /\ c1 \in L /\ c2 \in {c \in L : c <= c1} /\ rel \in Rels /\ t \in L /\ on = 0 /\ plain = 0 /\ hist = {} /\ run = 1
Step == x' \in {y \in L : Abs(y - x) <= 2560} /\ plain' = (IF Holds(rel, x, t) THEN 1 ELSE 0) /\ on' = Switch(TRUE, on = 1, plain') /\ hist' = hist \cup {x} /\ UNCHANGED <<c1, c2, rel, t, run>>
Reset == run = 1 /\ run' = 2 /\ on' = 0 /\ plain' = 0 /\ hist' = {} /\ UNCHANGED <<x, c1, c2, rel, t>>
Next == Step \/ Reset
Spec == Init /\ [][Next]_vars
Cs == <<c1, c2>>
\* the ratchet is on exactly if the relation has held since the run began
Latched == (on = 1) = (\E y \in hist : Holds(rel, y, t))
Vals == <<1000, 700, -300, 0>>
Pairs == <<<<1000, 900>>, <<500, 400>>, <<300, 100>>>>
At(y) == Interpolated(y, Cs, Vals, Band(y, Cs))
Counts == Band(x, Cs) = 1 + Cardinality({j \in 1..2 : x < Cs[j]}) /\ Bands(x, Cs, 0) = {Band(x, Cs)} /\ Band(x, Cs) \in Bands(x, Cs, 1)
Monotone == \A y \in L : y >= x => Band(y, Cs) <= Band(x, Cs)
Ends == (c1 < P => At(P) = Vals[1]) /\ (c2 > 0 => At(0) = Vals[4])
Within == LET j == Band(x, Cs) IN Least(<<Vals[j], Vals[j + 1]>>) <= At(x) /\ At(x) <= Most(<<Vals[j], Vals[j + 1]>>)
\* different curves: just below a curve the value is close to that on it
Continuous == (c2 > 0 /\ c2 < c1 /\ c1 < P) => \A j \in 1..2 : Abs(At(Cs[j]) - At(Cs[j] - 1)) <= 2 /\ At(Cs[j]) = Vals[j + 1]
InPair == LET j == Band(x, Cs) v == Piecewise(x, Cs, Pairs, 0, P, j) IN Pairs[j][2] <= v /\ v <= Pairs[j][1]
Relations == (Holds("LE", x, t) = (Holds("LT", x, t) \/ Holds("EQ", x, t))) /\ (Holds("GE", x, t) = ~Holds("LT", x, t)) /\ (Holds("GT", x, t) = ~Holds("LE", x, t))
             /\ \A r \in Rels : Answers(r, x, t, 0) = {IF Holds(r, x, t) THEN 1 ELSE 0}
===============================================================================
