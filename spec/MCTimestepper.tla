---------------------------- MODULE MCTimestepper ----------------------------
EXTENDS Timestepper
Freqs == {[kind |-> "D", n |-> n, wd |-> 6] : n \in {1, 2, 3, 7, 30, 366}} \cup
         {[kind |-> "W", n |-> n, wd |-> w] : n \in {1, 2}, w \in {2, 6}} \cup
         {[kind |-> k, n |-> n, wd |-> 6] : k \in {"M", "Q", "Y"}, n \in {1, 2}}
Starts == {Ord(y, m, d) : y \in {1999, 2000, 2003, 2100}, m \in {2, 12}, d \in {1, 28}} \cup {Ord(2004, 2, 29)}
Init == \E s \in Starts, k \in {0, 1, 6, 90, 400}, f \in Freqs :
          LET p == [start |-> s, end |-> s + k, freq |-> f]
          IN /\ period = p /\ idx = 0 /\ first = StepFirst(p)
             /\ last = StepLast(f, first) /\ ref = RefDay(f, first)
Next == Advance
Spec == Init /\ [][Next]_tvars
Inv == FieldRanges /\ SameDaySameIndex /\ StartHeld
\* EndHeld only for multiples of one unit: an n-unit step may start before the end and the unit of the end lies inside it
InvEnd == EndHeld
==============================================================================
