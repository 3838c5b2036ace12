---------------------------- MODULE TraceSchematic ----------------------------
(* Recorded drawings.  The case holds the description: nodes with their name, type, ancestors, position and attributes, and edges.  An event
   "draw" is a drawing of the document, the loaded model or a page; "edit" is an edit of the loaded model. *)
EXTENDS TraceLib, Schematic
VARIABLES c, l, nodes, edges
K == Cases[c]
Range(s) == {s[i] : i \in DOMAIN s}
Names == ShownNames(Range(nodes))
Desc(n) == CHOOSE d \in Range(nodes) : d.name = n
\* the drawing of a document shows the attributes it gives; a parameter which is referred to is shown with its class
Text(a) == CASE a.how = "plain" -> a.text [] a.how = "inline" -> a.cls [] a.how = "ref" -> a.text \o " - " \o a.cls
Wanted(d) == [i \in DOMAIN d.attrs |-> <<d.attrs[i].name, Text(d.attrs[i])>>]
AttrOk(e, n) == LET d == Desc(n.name) got == {<<n.attrs[i][1], n.attrs[i][2]>> : i \in DOMAIN n.attrs} IN
   IF ~e.attrs THEN n.attrs = <<>>
   ELSE IF e.from = "model" THEN \A i \in DOMAIN d.held : <<d.held[i].name, Text(d.held[i])>> \in got
   ELSE got = Range(Wanted(d)) /\ Len(n.attrs) = Len(d.attrs)
ChainOk(n) == LET d == Desc(n.name) IN Len(n.clss) > 0 /\ n.clss[Len(n.clss)] = d.cls /\ Range(n.clss) \subseteq Range(d.ancestors) /\ \A i, j \in DOMAIN n.clss : i # j => n.clss[i] # n.clss[j]
Shown(e) == Range(e.nodes)
Drawn(e) == {<<e.nodes[e.links[i][1] + 1].name, e.nodes[e.links[i][2] + 1].name>> : i \in DOMAIN e.links}
Bad(e) == IF ~e.ok THEN {"failed"} ELSE
  IF {n.name : n \in Shown(e)} # Names \/ Len(e.nodes) # Cardinality(Names) THEN {"nodes"}
  ELSE Failed([ends |-> \A i \in DOMAIN e.links : \A k \in 1..2 : e.links[i][k] + 1 \in DOMAIN e.nodes,
               links |-> (\A i \in DOMAIN e.links : \A k \in 1..2 : e.links[i][k] + 1 \in DOMAIN e.nodes) => Drawn(e) = Range(edges),
               classes |-> \A n \in Shown(e) : ChainOk(n), positions |-> \A n \in Shown(e) : n.pos = Desc(n.name).pos, attributes |-> \A n \in Shown(e) : AttrOk(e, n)])
TInit == c \in 1..Len(Cases) /\ l = 0 /\ nodes = Cases[c].nodes /\ edges = Cases[c].edges
TNext == LET e == Cases[c].ev[l'] IN
  /\ l < Len(Cases[c].ev) /\ l' = l + 1 /\ c' = c
  /\ CASE e.k = "draw" -> Report(c, l', Bad(e)) /\ UNCHANGED <<nodes, edges>>
       [] e.k = "connect" -> edges' = (IF e.edge \in Range(edges) THEN edges ELSE Append(edges, e.edge)) /\ UNCHANGED nodes
       [] e.k = "disconnect" -> edges' = SelectSeq(edges, LAMBDA d : d # e.edge) /\ UNCHANGED nodes
       [] e.k = "remove" -> nodes' = SelectSeq(nodes, LAMBDA d : d.name # e.name) /\ edges' = SelectSeq(edges, LAMBDA d : e.name \notin Range(d))
       [] e.k = "add" -> nodes' = Append(nodes, e.node) /\ UNCHANGED edges
TSpec == TInit /\ [][TNext]_<<c, l, nodes, edges>>
===============================================================================
