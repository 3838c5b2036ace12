--------------------------- MODULE TraceScenarios ---------------------------
EXTENDS Scenarios, TraceLib
VARIABLES c, l
TInit == c \in 1..Len(Cases) /\ l = 0
NearV(a, b) == Near(a, b, 2 + (IF a > 0 THEN a ELSE 0 - a) \div 20000)
RowSame(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NearV(a[i], b[i])
Bad(e) ==
  CASE e.k = "enum" ->
        LET want == Combos(e.sizes, e.slices, e.combos) IN
        IF want = <<>> THEN Failed([empty_refused |-> e.refused])
        ELSE Failed([not_refused |-> ~e.refused, combinations |-> e.got = want, shape |-> e.shape = Shape(e.sizes, e.slices, e.combos),
                     ids |-> e.ids = [i \in 1..Len(want) |-> i - 1],
                     \* ensemble n of scenario s is named 10 s + n
                     labels |-> e.sizes = <<>> \/ e.labels = [i \in 1..Len(want) |-> [j \in 1..Len(want[i]) |-> 10 * j + want[i][j]]],
                     size |-> e.n = Len(want)])
    [] e.k = "invalid" -> Failed([invalid_refused |-> e.refused = ~Valid(e.sizes, e.combos)])
    \* the column of one combination equals what a model of that combination alone shows
    [] e.k = "iso" -> IF RowSame(e.a, e.b) THEN {} ELSE
                        {"isolation"} \cup {Cases[c].labels[i] : i \in {i \in 1..Len(Cases[c].labels) : Len(e.a) = Len(e.b) /\ Len(e.a) = Len(Cases[c].labels) /\ ~NearV(e.a[i], e.b[i])}}
    [] e.k = "rec" -> {x \in DOMAIN e.b : ~(x \in DOMAIN e.a /\ RowSame(e.a[x].v, e.b[x].v) /\ RowSame(e.a[x].e, e.b[x].e))}
    \* an aggregate over scenarios is the aggregate of the scenarios' values
    [] e.k = "steps" -> Failed([same_number_of_steps |-> e.a = e.b])
TNext == l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c /\ Report(c, l', Bad(Cases[c].ev[l']))
TSpec == TInit /\ [][TNext]_<<c, l>>
==============================================================================
