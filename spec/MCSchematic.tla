----------------------------- MODULE MCSchematic ------------------------------
(* Networks which are described, loaded and edited: nodes of three kinds are added, connected and disconnected; in the loaded graph a
   compound node is made of an inlet, inner parts and an outlet.  The drawing of the graph is always the drawing of the description. *)
EXTENDS Schematic, TLC
CONSTANTS Names, Parts, Edits
VARIABLES kind, edges, parent, links, left
vars == <<kind, edges, parent, links, left>>
Kinds == {"simple", "compound", "virtual"}
Inner(n) == {<<n, k>> : k \in 1..Parts}
Node(n) == <<n, 0>>
Init == kind = [n \in {} |-> "simple"] /\ edges = {} /\ parent = [x \in {} |-> x] /\ links = {} /\ left = Edits
Spend == left > 0 /\ left' = left - 1
Add == \E n \in Names \ DOMAIN kind, k \in Kinds :
  /\ kind' = [m \in DOMAIN kind \cup {n} |-> IF m = n THEN k ELSE kind[m]]
  /\ parent' = [x \in DOMAIN parent \cup {Node(n)} \cup (IF k = "compound" THEN Inner(n) ELSE {}) |-> IF x \in DOMAIN parent THEN parent[x] ELSE Node(n)]
  /\ links' = links \cup (IF k = "compound" THEN {<< <<n, i>>, <<n, i + 1>> >> : i \in 1..(Parts - 1)} ELSE {})
  /\ UNCHANGED edges
Ins(n) == IF kind[n] = "compound" THEN {<<n, i>> : i \in 1..(Parts - 1)} ELSE {Node(n)}
Outs(n) == IF kind[n] = "compound" THEN {<<n, Parts>>} ELSE {Node(n)}
Flows == {n \in DOMAIN kind : kind[n] # "virtual"}
Connect == \E a, b \in Flows : /\ a # b /\ <<a, b>> \notin edges
  /\ edges' = edges \cup {<<a, b>>} /\ links' = links \cup (Outs(a) \X Ins(b)) /\ UNCHANGED <<kind, parent>>
Disconnect == \E e \in edges : edges' = edges \ {e} /\ links' = links \ (Outs(e[1]) \X Ins(e[2])) /\ UNCHANGED <<kind, parent>>
Remove == \E n \in DOMAIN kind : LET gone == {x \in DOMAIN parent : parent[x] = Node(n)} IN
  /\ kind' = [m \in DOMAIN kind \ {n} |-> kind[m]]
  /\ edges' = {e \in edges : n \notin {e[1], e[2]}} /\ parent' = [x \in DOMAIN parent \ gone |-> parent[x]]
  /\ links' = {d \in links : d[1] \notin gone /\ d[2] \notin gone}
Next == Spend /\ (Add \/ Connect \/ Disconnect \/ Remove)
Spec == Init /\ [][Next]_vars
Described == {[name |-> Node(n), virtual |-> kind[n] = "virtual"] : n \in DOMAIN kind}
Virtuals == {Node(n) : n \in {m \in DOMAIN kind : kind[m] = "virtual"}}
SameNodes == ShownNodes(parent, Virtuals) = ShownNames(Described)
SameLinks == ShownLinks(parent, links) = {<<Node(e[1]), Node(e[2])>> : e \in edges}
Closed == \A d \in ShownLinks(parent, links) : {d[1], d[2]} \subseteq ShownNodes(parent, Virtuals)
===============================================================================
