-------------------------------- MODULE Stored --------------------------------
(* Output files: for each step taken a row of time and, at the step's index, a row of every array; arrays are written in blocks. *)
EXTENDS Integers, Sequences, FiniteSets
\* rows: sequence of <<index, value>> waiting to be written;  file: function from index to value
Put(file, rows) == [i \in DOMAIN file |-> IF \E k \in DOMAIN rows : rows[k][1] = i THEN rows[CHOOSE k \in DOMAIN rows : rows[k][1] = i][2] ELSE file[i]]
\* number of elements of start:stop:step after python's rules, for a range of n elements; None is recorded as the string "none"
Clip(x, n, lo, hi) == LET y == IF x < 0 THEN x + n ELSE x IN IF y < lo THEN lo ELSE IF y > hi THEN hi ELSE y
From(s, n) == IF s.nostart THEN 0 ELSE Clip(s.start, n, 0, n)
To(s, n) == IF s.nostop THEN n ELSE Clip(s.stop, n, 0, n)
Taken(s, n) == LET a == From(s, n) b == To(s, n) IN IF b <= a THEN <<>> ELSE [k \in 1..((b - a + s.step - 1) \div s.step) |-> a + (k - 1) * s.step]
\* the flows of the routes which start (or end) at a node are its flow
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
===============================================================================
