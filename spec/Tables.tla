-------------------------------- MODULE Tables --------------------------------
(* Tables of data: a table has row labels, column labels and a cell for every pair of them.  A reader asks for a column, for some columns,
   for a row, for some rows, or for a cell; it is given exactly those cells, in the order asked for, or refused. *)
EXTENDS Integers, Sequences, FiniteSets
NoAsk == [column |-> <<>>, columns |-> <<>>, index |-> <<>>, indexes |-> <<>>]
In(x, xs) == \E i \in DOMAIN xs : xs[i] = x
At(xs, x) == CHOOSE i \in DOMAIN xs : xs[i] = x
Refusal == [ok |-> FALSE, shape |-> "none", rows |-> <<>>, cols |-> <<>>, v |-> <<>>]
Frame(shape, t, rs, cs) == [ok |-> TRUE, shape |-> shape, rows |-> rs, cols |-> cs, v |-> [i \in DOMAIN rs |-> [j \in DOMAIN cs |-> t.v[At(t.rows, rs[i])][At(t.cols, cs[j])]]]]
Known(t, ask) == /\ \A c \in {ask.column[i] : i \in DOMAIN ask.column} : In(c, t.cols)
                 /\ \A i \in DOMAIN ask.columns : \A c \in {ask.columns[i][k] : k \in DOMAIN ask.columns[i]} : In(c, t.cols)
                 /\ \A r \in {ask.index[i] : i \in DOMAIN ask.index} : In(r, t.rows)
                 /\ \A i \in DOMAIN ask.indexes : \A r \in {ask.indexes[i][k] : k \in DOMAIN ask.indexes[i]} : In(r, t.rows)
\* every part of an ask is a sequence with nothing or with the one thing asked for
Select(t, ask) ==
  IF ~Known(t, ask) THEN Refusal
  ELSE LET cs == IF ask.column # <<>> THEN ask.column ELSE IF ask.columns # <<>> THEN ask.columns[1] ELSE t.cols
           rs == IF ask.index # <<>> THEN ask.index ELSE IF ask.indexes # <<>> THEN ask.indexes[1] ELSE t.rows
           shape == IF ask.column # <<>> THEN (IF ask.index # <<>> THEN "cell" ELSE "col") ELSE IF ask.index # <<>> THEN "row" ELSE "frame"
       IN Frame(shape, t, rs, cs)
\* a source is read only if it is there, it is well described, and its content matches every declared checksum
Readable(there, well, sums) == there /\ well /\ \A i \in DOMAIN sums : sums[i]
Read(t, ask, there, well, sums) == IF Readable(there, well, sums) THEN Select(t, ask) ELSE Refusal
\* what becomes of a selection where values are wanted
Line(s) == IF Len(s.cols) = 1 THEN [i \in DOMAIN s.rows |-> s.v[i][1]] ELSE s.v[1]
Straight(s) == s.ok /\ (Len(s.cols) = 1 \/ Len(s.rows) = 1)
One(s) == s.ok /\ Len(s.cols) = 1 /\ Len(s.rows) = 1
===============================================================================
