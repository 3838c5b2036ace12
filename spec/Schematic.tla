------------------------------ MODULE Schematic -------------------------------
(* What a schematic of a network shows: every node which is part of the flow network and is not a part of another node, and the
   connections between them.  A loaded model holds the inner nodes and connections of compound nodes as well; they are not shown. *)
EXTENDS Integers, Sequences, FiniteSets
\* a description: nodes is a set of records [name, virtual], edges a set of pairs of names
ShownNames(nodes) == {n.name : n \in {m \in nodes : ~m.virtual}}
\* a graph: parent maps every node of the graph to itself or to the node it is a part of
TopOf(parent, x) == parent[x]
ShownLinks(parent, edges) == {<<TopOf(parent, e[1]), TopOf(parent, e[2])>> : e \in {d \in edges : TopOf(parent, d[1]) # TopOf(parent, d[2])}}
ShownNodes(parent, virtual) == {x \in DOMAIN parent : parent[x] = x /\ x \notin virtual}
===============================================================================
