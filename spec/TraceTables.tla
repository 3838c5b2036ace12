----------------------------- MODULE TraceTables ------------------------------
(* Recorded readings of tables.  An event "read" is a reader which asks a source for a selection; an event "use" is a component of a loaded
   model which takes its values from a selection; an event "load" is a document with several readers. *)
EXTENDS TraceLib, Tables
VARIABLES c, l
K == Cases[c]
Want(r) == Read(K.tables[r.t], r.ask, r.there, r.well, r.sums)
ReadBad(e) == LET w == Want(e) g == e.got IN
  Failed([refused |-> w.ok = g.ok, shape |-> ~(w.ok /\ g.ok) \/ w.shape = g.shape, rows |-> ~(w.ok /\ g.ok) \/ w.shape \in {"row", "cell"} \/ w.rows = g.rows,
          columns |-> ~(w.ok /\ g.ok) \/ w.shape \in {"col", "cell"} \/ w.cols = g.cols, cells |-> ~(w.ok /\ g.ok) \/ w.v = g.v])
\* what a component holds at step i in member j
Held(e, w, i, j) == CASE e.how = "one" -> w.v[1][1]
                      [] e.how = "scenario" -> Line(w)[j]
                      [] e.how = "time" -> Line(w)[e.at[i] + 1]
                      [] e.how = "grid" -> w.v[e.at[i] + 1][j]
                      [] e.how = "members" -> w.v[j][e.at[i] + 1]
UseBad(e) == LET w == Want(e) IN Failed([values |-> \A i \in DOMAIN e.got : \A j \in DOMAIN e.got[i] : Near(e.got[i][j], Held(e, w, i, j), 0)])
LoadBad(e) == Failed([loaded |-> e.ok = \A i \in DOMAIN e.reads : Want(e.reads[i]).ok])
TInit == c \in 1..Len(Cases) /\ l = 0
TNext == LET e == Cases[c].ev[l'] IN
  /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
  /\ Report(c, l', CASE e.k = "read" -> ReadBad(e) [] e.k = "use" -> UseBad(e) [] e.k = "load" -> LoadBad(e))
TSpec == TInit /\ [][TNext]_<<c, l>>
===============================================================================
