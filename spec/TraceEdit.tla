------------------------------- MODULE TraceEdit -------------------------------
(* Recorded histories of edits of real models, compared edit by edit.             *)
EXTENDS TraceLib
VARIABLES k, l, nodes, conns, parts, links, comps, dirty, used, out
E == INSTANCE Edit
Ev == Cases[k].ev
TInit == \E m \in 1..Len(Cases) : k = m /\ l = 0 /\ E!Init
ToSet(s) == {s[i] : i \in 1..Len(s)}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
\* a connection as recorded, by slots, is told by the parts it joins
Recorded(c) == IF c[2] = "?" THEN <<c[1], -1, c[3], -1>> ELSE E!Conn(c[1], c[2], c[3], c[4])'
Op(o) ==
  CASE o.op = "add" -> E!Add(o.id, o.name, o.kind, o.sound)
    [] o.op = "rename" -> E!Rename(o.id, o.name)
    [] o.op = "connect" -> E!Connect(o.a, o.sa, o.b, o.sb)
    [] o.op = "disconnect" -> E!Disconnect(o.a, o.b, o.sb)
    [] o.op = "disconnectall" -> E!DisconnectAll(o.a)
    [] o.op = "remove" -> E!Remove(o.id)
    [] o.op = "foreign" -> E!Foreign
    [] o.op = "addcomp" -> E!AddComp(o.id, o.name, o.type, o.sound)
    [] o.op = "renamecomp" -> E!RenameComp(o.id, o.name)
    [] o.op = "run" -> E!Run(o.edges)
\* renaming something to the name it has may also be refused
Free(o) == \/ o.op = "rename" /\ o.id \in DOMAIN nodes /\ nodes[o.id].name = o.name
           \/ o.op = "renamecomp" /\ comps[o.id].name = o.name
NearV(a, b) == Near(a, b, 20 + (IF a > 0 THEN a ELSE 0 - a) \div 10000)
Flat(S) == {<<x>> : x \in S}
Owners(r) == [i \in 1..Len(r) |-> r[i][1]]
\* after the edit: what is found by name, what is connected, and the routes
Seen(e) ==
  LET names == {nodes'[a].name : a \in DOMAIN nodes'}
      R == E!Routes' IN
  Flat(Failed([names_once |-> \A i, j \in 1..Len(e.names) : i # j => e.names[i][2] # e.names[j][2],
          length |-> e.len = Len(e.names),
          comps_once |-> \A i, j \in 1..Len(e.comps) : i # j /\ e.comps[i][1] > -1 => e.comps[i][1] # e.comps[j][1]]))
  \cup {<<"missing", a>> : a \in {a \in DOMAIN nodes' : <<a, nodes'[a].name>> \notin ToSet(e.names)}}
  \* the parts of a node may be listed as well
  \cup {<<"unexpected", x>> : x \in {x \in ToSet(e.names) : (x[1] > -1 /\ ~(x[1] \in DOMAIN nodes' /\ nodes'[x[1]].name = x[2])) \/ x[1] = -2}}
  \cup {<<"lookup", x>> : x \in {x \in ToSet(e.look) : IF x[1] \in names THEN x[2] # E!Lookup(x[1])' ELSE x[2] >= 0}}
  \cup {<<"contains", x>> : x \in {x \in ToSet(e.look) : x[2] # -3 /\ x[3] # (x[1] \in names)}}
  \cup {<<"connection", x>> : x \in LET C == {Recorded(c) : c \in ToSet(e.conns)} IN (conns' \ C) \cup (C \ conns')}
  \cup {<<"component", x>> : x \in ({<<c, comps'[c].name, comps'[c].type>> : c \in DOMAIN comps'} \ ToSet(e.comps))
                                   \cup {x \in ToSet(e.comps) : (x[1] > -1 /\ ~(x[1] \in DOMAIN comps' /\ comps'[x[1]].name = x[2] /\ comps'[x[1]].type = x[3])) \/ x[1] = -2}}
  \cup {<<"component_lookup", x>> : x \in {x \in ToSet(e.clook) : IF \E c \in DOMAIN comps' : comps'[c].name = x[1] /\ comps'[c].type = x[3]
                                              THEN ~(x[2] \in DOMAIN comps' /\ comps'[x[2]].name = x[1] /\ comps'[x[2]].type = x[3]) ELSE x[2] # -1}}
  \cup (IF ~e.full THEN {} ELSE
        Flat(Failed([number_of_routes |-> Len(e.routes) = Cardinality(R)]))
        \cup {<<"route", x>> : x \in {x \in ToSet(e.routes) \cup {Owners(r) : r \in R} : Count(e.routes, x) # Cardinality({r \in R : Owners(r) = x})}}
        \cup UNION {LET F == E!Found(q.f, q.t, q.max, q.dom)' IN
                    {<<"search", q.f, q.t, q.max, q.dom, x>> : x \in {x \in ToSet(q.got) \cup {Owners(r) : r \in F} : Count(q.got, x) # Cardinality({r \in F : Owners(r) = x})}} : q \in ToSet(e.searches)})
RowDiff(a, b) == IF Len(a) # Len(b) THEN {<<"number_of_timesteps">>}
   ELSE UNION {IF Len(a[i]) # Len(b[i]) THEN {<<"results">>} ELSE {<<"result", i, x>> : x \in {x \in 1..Len(a[i]) : ~NearV(a[i][x], b[i][x])}} : i \in 1..Len(a)}
\* a run of the edited model ends as one of a model built that way, with the same results
Same(e) == IF e.op.op # "run" \/ e.op.part THEN {}
           ELSE Flat(Failed([as_if_built_that_way |-> e.ran = e.fresh]))
                \cup (IF e.ran = "ok" /\ e.fresh = "ok" THEN RowDiff(e.rows, e.freshrows) ELSE {})
TNext == /\ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED k
         /\ LET e == Ev[l + 1] IN
            /\ Op(e.op)
            /\ Report(k, l', Flat(Failed([accepted_or_refused |-> out' = e.out \/ Free(e.op) \/ (e.op.op = "run" /\ e.ran = "unsolved")])) \cup Seen(e) \cup Same(e))
TSpec == TInit /\ [][TNext]_<<k, l, nodes, conns, parts, links, comps, dirty, used, out>>
================================================================================
