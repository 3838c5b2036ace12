----------------------------- MODULE TraceDocument -----------------------------
EXTENDS TraceLib
VARIABLES k, l, todo, stack, made, verdict
L == INSTANCE Document WITH Defs <- LAMBDA x : Cases[x].defs
Ev == Cases[k].ev
TInit == \E m \in 1..Len(Cases) : l = 0 /\ L!Start(m)
NearV(a, b) == Near(a, b, 2 + (IF a > 0 THEN a ELSE 0 - a) \div 20000)
ToSet(s) == {s[i] : i \in 1..Len(s)}
Idx(name) == CHOOSE i \in L!Ids : ~L!D[i].node /\ L!D[i].name = name
\* every component was made after those it needs
LegalOrder(o) == \A i \in 1..Len(o) : L!NamedNeeds(Idx(o[i])) \subseteq {o[j] : j \in 1..(i - 1)}
Missed(o) == {o[i] : i \in {i \in 1..Len(o) : ~(L!NamedNeeds(Idx(o[i])) \subseteq {o[j] : j \in 1..(i - 1)})}}
Once(o) == \A i, j \in 1..Len(o) : i # j => o[i] # o[j]
AttrDiff(a, b) == {<<"attributes", x>> : x \in {x \in DOMAIN a \cup DOMAIN b : x \notin DOMAIN a \/ x \notin DOMAIN b}}
                  \cup UNION {{<<"attribute", x, y>> : y \in {y \in DOMAIN a[x] \cup DOMAIN b[x] :
                                  y \notin DOMAIN a[x] \/ y \notin DOMAIN b[x] \/ a[x][y] # b[x][y]}} : x \in DOMAIN a \cap DOMAIN b}
RowDiff(lab, a, b) == IF Len(a) # Len(b) THEN {"number_of_timesteps"}
   ELSE UNION {IF Len(a[i]) # Len(b[i]) THEN {"scenarios"}
               ELSE {<<"result", lab[x]>> : x \in {x \in 1..Len(lab) : \E s \in 1..Len(a[i]) : ~NearV(a[i][s][x], b[i][s][x])}} : i \in 1..Len(a)}
FinalDiff(a, b) == {<<"recorder", x>> : x \in {x \in DOMAIN a \cup DOMAIN b : x \notin DOMAIN a \/ x \notin DOMAIN b
                        \/ Len(a[x]) # Len(b[x]) \/ \E i \in 1..Len(a[x]) : ~NearV(a[x][i], b[x][i])}}
Shape(e) == Failed([nodes |-> L!NamesOf(TRUE) \subseteq ToSet(e.nodes), components |-> L!NamesOf(FALSE) \subseteq ToSet(e.comps),
                    once |-> Once(e.nodes) /\ Once(e.comps) /\ Once(e.order), all_made |-> ToSet(e.order) = L!NamesOf(FALSE)])
            \cup {<<"made_before_what_it_needs", x>> : x \in Missed(e.order)}
            \cup {<<"child", x>> : x \in {x \in DOMAIN e.kids : ~(L!ChildNames(Idx(x)) \subseteq ToSet(e.kids[x]))}}
Bad(e) ==
  CASE e.k = "code" -> Shape(e)
    [] e.k = "refused" -> Failed([refused_although_sound |-> ~L!WellFormed])
    [] e.k = "load" -> IF ~L!WellFormed THEN {"accepted_although_flawed"}
                       ELSE LET c == Ev[1] IN
                            Shape(e) \cup Failed([nodes |-> e.nodes = c.nodes, components |-> e.comps = c.comps, ran |-> e.ran = c.ran, labels |-> e.labels = c.labels])
                            \cup AttrDiff(e.attrs, c.attrs)
                            \cup {<<"option", g[1]>> : g \in {g \in ToSet(e.given) : g[2] # g[3]}}
                            \* several allocations may cost the same: which one is found may depend on the order of the nodes
                            \cup (IF e.labels = c.labels /\ ~e.mixed THEN RowDiff(e.labels, e.rows, c.rows) \cup FinalDiff(e.final, c.final) ELSE {})
TNext == /\ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED <<k, todo, stack, made, verdict>>
         /\ LET e == Ev[l + 1] IN Report(k, l', Bad(e))
TSpec == TInit /\ [][TNext]_<<k, l, todo, stack, made, verdict>>
================================================================================
