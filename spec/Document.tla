------------------------------- MODULE Document --------------------------------
(* Loading a model from a document.  A document defines nodes and components     *)
(* (parameters and recorders).  A definition needs others, which it names or      *)
(* contains.  Loading makes all nodes first, then the components, each after what  *)
(* it needs (found among what is made, or made at once when still to do), and     *)
(* finishes the nodes last.  In which order the definitions are taken is left     *)
(* open: what is made, and whether the document is refused, does not depend on it. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Defs(_)      \* the definitions of document k: a sequence of [name, node, inline, sound, make, finish]
   \* node: in the name space of nodes; inline: contained in another definition; sound: of a known type, with options that
   \* type has; make, finish: what it needs, [node, name, own] (own: the definition contained, or 0)
VARIABLES k, todo, stack, made, verdict

D == Defs(k)
Ids == 1..Len(D)
TopIds == {i \in Ids : ~D[i].inline}
Items == {<<i, "make">> : i \in Ids} \cup {<<i, "finish">> : i \in {i \in Ids : D[i].node}}
Range(s) == {s[i] : i \in 1..Len(s)}
\* the definitions a reference may mean
Meant(r) == IF r.own > 0 THEN {r.own} ELSE {i \in TopIds : D[i].node = r.node /\ D[i].name = r.name}
NeedsOf(it) == IF it[2] = "make" THEN D[it[1]].make ELSE D[it[1]].finish
NeedItems(it) == {<<j, "make">> : j \in UNION {Meant(r) : r \in Range(NeedsOf(it))}}

\* ---- what a sound document is
Named(i) == D[i].name # ""
Unique == \A i, j \in Ids : (i # j /\ Named(i) /\ Named(j) /\ D[i].node = D[j].node) => D[i].name # D[j].name
Resolved == \A it \in Items : \A r \in Range(NeedsOf(it)) : Meant(r) # {}
Uses(i) == {j[1] : j \in NeedItems(<<i, "make">>)}
RECURSIVE Reach(_, _)
Reach(S, n) == IF n = 0 THEN S ELSE Reach(S \cup UNION {Uses(i) : i \in S}, n - 1)
Acyclic == \A i \in Ids : i \notin Reach(Uses(i), Len(D))
Sound == \A i \in Ids : D[i].sound
WellFormed == Unique /\ Resolved /\ Acyclic /\ Sound

\* ---- loading
Start(x) == k = x /\ todo = {it \in Items : ~D[it[1]].inline} /\ stack = <<>> /\ made = {} /\ verdict = "loading"
Rank(it) == IF it[2] = "finish" THEN 3 ELSE IF D[it[1]].node THEN 1 ELSE 2
\* nodes are made first and finished last
Take(it) == /\ verdict = "loading" /\ stack = <<>> /\ it \in todo
            /\ \A o \in todo : Rank(it) <= Rank(o)
            /\ stack' = <<it>> /\ todo' = todo \ {it} /\ UNCHANGED <<k, made, verdict>>
Top == stack[Len(stack)]
Missing(it) == {r \in Range(NeedsOf(it)) : ~\E i \in Meant(r) : <<i, "make">> \in made}
\* a need which is not made yet is made first, if it is still to do
Need(r) == /\ verdict = "loading" /\ stack # <<>> /\ r \in Missing(Top)
           /\ LET S == {i \in Meant(r) : <<i, "make">> \in todo \/ (r.own = i /\ ~\E x \in 1..Len(stack) : stack[x] = <<i, "make">>)}
              IN IF S = {} THEN verdict' = "refused" /\ UNCHANGED <<k, todo, stack, made>>
                 ELSE \E i \in S : stack' = Append(stack, <<i, "make">>) /\ todo' = todo \ {<<i, "make">>} /\ UNCHANGED <<k, made, verdict>>
Taken(it) == it[2] = "make" /\ Named(it[1]) /\ \E o \in made : o[2] = "make" /\ D[o[1]].node = D[it[1]].node /\ D[o[1]].name = D[it[1]].name
CanMake(it) == Missing(it) = {} /\ D[it[1]].sound /\ ~Taken(it)
Make == /\ verdict = "loading" /\ stack # <<>> /\ Missing(Top) = {}
        /\ IF CanMake(Top) THEN made' = made \cup {Top} /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<k, todo, verdict>>
           ELSE verdict' = "refused" /\ UNCHANGED <<k, todo, stack, made>>
End == /\ verdict = "loading" /\ stack = <<>> /\ todo = {} /\ verdict' = "loaded" /\ UNCHANGED <<k, todo, stack, made>>
Next == (\E it \in Items : Take(it)) \/ (stack # <<>> /\ \E r \in Range(NeedsOf(Top)) : Need(r)) \/ Make \/ End

\* ---- what follows
Vars == <<k, todo, stack, made, verdict>>
\* the verdict, and all that is made, do not depend on the order
Verdict == (verdict = "loaded" => WellFormed) /\ (verdict = "refused" => ~WellFormed)
Whole == verdict = "loaded" => made = Items
\* everything is made once, and after what it needs
Ordered == \A it \in made : Missing(it) = {}
Terminates == <>(verdict # "loading")
\* the names a loaded document leaves
NamesOf(node) == {D[i].name : i \in {i \in Ids : D[i].node = node /\ Named(i)}}
\* the named components a component needs, itself or through what it contains
RECURSIVE Within(_, _)
Within(S, n) == IF n = 0 THEN S ELSE Within(S \cup UNION {Uses(i) : i \in {i \in S : ~D[i].node /\ ~Named(i)}}, n - 1)
NamedNeeds(i) == {D[j].name : j \in {j \in Within(Uses(i), 4) : ~D[j].node /\ Named(j)}}
ChildNames(i) == {D[j].name : j \in {j \in Uses(i) : ~D[j].node /\ Named(j)}}
================================================================================
