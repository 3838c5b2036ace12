--------------------------------- MODULE Edit ----------------------------------
(* Editing a network: nodes are added, renamed, connected, disconnected and       *)
(* removed, components are added and renamed, and the model is run in between.    *)
(*                                                                                *)
(* The user's view is `nodes' (what there is, by name) and `conns' (connections   *)
(* between slots of nodes).  The model keeps a graph of the parts nodes consist    *)
(* of: a storage has a part for each slot, a piecewise link one for each step.    *)
(* The graph is changed step by step; that it always remains what the user's view *)
(* amounts to is an invariant (Consistent).  Allocation uses the routes of the    *)
(* graph as it was when the model was last set up (`used').                       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES nodes, conns, parts, links, comps, dirty, used, out
EVars == <<nodes, conns, parts, links, comps, dirty, used, out>>
\* ------------------------------------------------ what nodes consist of
Part(c, d) == [c |-> c, d |-> d, alone |-> FALSE]
Whole == [c |-> "none", d |-> 0, alone |-> TRUE]
Rep(p, n) == [i \in 1..n |-> p]
\* kinds: [t, o, i, n, x, slots]
Parts(kd) ==
  CASE kd.t \in {"input", "output", "link"} -> <<Part(CASE kd.t = "input" -> "in" [] kd.t = "output" -> "out" [] OTHER -> "link", 0)>>
    [] kd.t = "storage" -> Rep(Part("out", 0), kd.o) \o Rep(Part("in", 0), kd.i) \o <<Whole>>
    \* an output, an input, and in a domain of their own the steps and an output collecting them
    [] kd.t = "piecewise" -> <<Part("in", 0), Part("out", 0), Part("out", 1)>> \o Rep(Part("in", 1), kd.n) \o <<Whole>>
    \* as well as a pair of output and input for each additional slot
    [] kd.t = "split" -> <<Part("in", 0), Part("out", 0), Part("out", 1)>> \o Rep(Part("in", 1), kd.n + kd.x)
                         \o [j \in 1..(2 * kd.x) |-> IF j <= kd.x THEN Part("out", 1) ELSE Part("in", 0)] \o <<Whole>>
    [] kd.t = "break" -> <<Part("out", 0), Part("in", 0), Part("link", 0), Whole>>
    [] kd.t = "delay" -> <<Part("out", 0), Part("in", 0), Whole>>
    [] kd.t = "loss" -> <<Part("out", 0), Part("link", 0), Part("link", 0), Whole>>
    [] OTHER -> <<Whole>>
Inner(kd) ==
  CASE kd.t = "piecewise" -> {<<3, 1>>} \cup {<<2, 3 + s>> : s \in 1..kd.n} \cup {<<3 + s, 3>> : s \in 1..kd.n}
    [] kd.t = "split" -> LET m == kd.n + kd.x IN
         {<<3, 1>>} \cup {<<2, 3 + s>> : s \in 1..m} \cup {<<3 + s, 3>> : s \in 1..m}
         \cup {<<3 + kd.n + j, 3 + m + j>> : j \in 1..kd.x} \cup {<<3 + m + j, 3 + m + kd.x + j>> : j \in 1..kd.x}
    [] kd.t = "break" -> {<<2, 3>>}
    [] kd.t = "loss" -> {<<2, 1>>, <<2, 3>>}
    [] OTHER -> {}
Joinable(kd) == kd.t \notin {"agg", "virtual"}
Num == <<"0", "1", "2", "3">>
\* the part a connection from (to) a slot is made with; 0: there is no such slot, or it has to be named
FromPart(kd, s) ==
  CASE kd.t \in {"input", "output", "link"} -> IF s = "-" THEN 1 ELSE 0
    [] kd.t = "storage" -> IF s = "-" THEN (IF kd.i = 1 THEN kd.o + 1 ELSE 0)
                           ELSE IF \E j \in 1..kd.i : Num[j] = s THEN kd.o + (CHOOSE j \in 1..kd.i : Num[j] = s) ELSE 0
    [] kd.t = "piecewise" -> IF s = "-" THEN 1 ELSE 0
    [] kd.t = "split" -> IF \E j \in 1..Len(kd.slots) : kd.slots[j] = s
                         THEN (LET j == CHOOSE j \in 1..Len(kd.slots) : kd.slots[j] = s IN IF j = 1 THEN 1 ELSE 3 + kd.n + kd.x + kd.x + j - 1) ELSE 0
    [] kd.t = "break" -> IF s = "-" THEN 3 ELSE 0
    [] kd.t = "delay" -> IF s = "-" THEN 2 ELSE 0
    [] kd.t = "loss" -> IF s = "-" THEN 3 ELSE 0
    [] OTHER -> 0
ToPart(kd, s) ==
  CASE kd.t \in {"input", "output", "link"} -> IF s = "-" THEN 1 ELSE 0
    [] kd.t = "storage" -> IF s = "-" THEN (IF kd.o = 1 THEN 1 ELSE 0)
                           ELSE IF \E j \in 1..kd.o : Num[j] = s THEN (CHOOSE j \in 1..kd.o : Num[j] = s) ELSE 0
    [] kd.t \in {"piecewise", "split", "loss"} -> IF s = "-" THEN 2 ELSE 0
    [] kd.t \in {"break", "delay"} -> IF s = "-" THEN 1 ELSE 0
    [] OTHER -> 0
\* ------------------------------------------------ the user's view
Ids == DOMAIN nodes
Kind(a) == nodes[a].kind
NameUsed(n) == \E a \in Ids : nodes[a].name = n
Lookup(n) == IF NameUsed(n) THEN CHOOSE a \in Ids : nodes[a].name = n ELSE -1
CompUsed(n) == \E c \in DOMAIN comps : comps[c].name = n
\* connections are told apart by the parts they join
Conn(a, sa, b, sb) == <<a, FromPart(Kind(a), sa), b, ToPart(Kind(b), sb)>>
\* ------------------------------------------------ routes
Class(p) == Parts(Kind(p[1]))[p[2]].c
Alone(p) == Parts(Kind(p[1]))[p[2]].alone
Dom(p) == IF Parts(Kind(p[1]))[p[2]].d = 0 THEN 0 ELSE p[1]
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
RECURSIVE Walks(_)
\* every way on from a path which ends in an output, without passing a part twice or leaving the domain
Walks(path) ==
  LET last == path[Len(path)] IN
  (IF Len(path) > 1 /\ Class(last) = "out" THEN {path} ELSE {})
  \cup UNION {Walks(Append(path, e[2])) : e \in {e \in links : e[1] = last /\ ~Has(path, e[2]) /\ Dom(e[2]) = Dom(last) /\ Class(e[2]) # "none"}}
Routes == UNION {Walks(<<p>>) : p \in {p \in parts : Class(p) = "in"}}
\* routes looked for: from one part or from all inputs (f = 0), to one or to all outputs, of at most a number of parts (0: any), and
\* within one domain, in any, or in different ones
RECURSIVE Paths(_, _, _, _)
Paths(path, T, max, strict) ==
  LET last == path[Len(path)] IN
  (IF Len(path) > 1 /\ last \in T THEN {path} ELSE {})
  \cup (IF (max > 0 /\ Len(path) >= max) \/ Class(last) = "none" \/ (last \in T /\ Cardinality(T) = 1) THEN {} ELSE
        UNION {Paths(Append(path, e[2]), T, max, strict) : e \in {e \in links : e[1] = last /\ ~Has(path, e[2]) /\ (strict => Dom(e[2]) = Dom(last))}})
Found(f, t, max, dom) ==
  LET from == IF f = 0 THEN {p \in parts : Class(p) = "in"} ELSE {<<f, 1>>}
      to == IF t = 0 THEN {p \in parts : Class(p) = "out"} ELSE {<<t, 1>>}
      all == UNION {Paths(<<p>>, to, max, dom = "strict") : p \in from}
  IN IF dom = "different" THEN {r \in all : Cardinality({Dom(r[i]) : i \in 1..Len(r)}) > 1} ELSE all
OnRoute == UNION {{r[i] : i \in 1..Len(r)} : r \in Routes}
\* every part has to be on a route, or the model is refused
Runnable == /\ \A p \in parts : Alone(p) \/ p \in OnRoute
            /\ Routes # {}
\* the edge-based solver takes inputs and outputs as the ends only (within a domain); every input and link has to lead on, and something to every output
EdgesRunnable == LET I == {e \in links : Dom(e[1]) = Dom(e[2])} IN
                 /\ links # {}
                 /\ \A e \in I : Class(e[1]) # "out" /\ Class(e[2]) # "in"
                 /\ \A p \in parts : /\ Class(p) \in {"in", "link"} => \E e \in I : e[1] = p
                                     /\ Class(p) = "out" => \E e \in I : e[2] = p
CanRun(edges) == IF edges THEN EdgesRunnable ELSE Runnable
\* ------------------------------------------------ edits
Refused == out' = "refused" /\ UNCHANGED <<nodes, conns, parts, links, comps, dirty, used>>
Add(a, n, kd, sound) ==
  IF NameUsed(n) \/ ~sound THEN Refused
  ELSE /\ nodes' = [x \in Ids \cup {a} |-> IF x = a THEN [name |-> n, kind |-> kd] ELSE nodes[x]]
       /\ parts' = parts \cup {<<a, j>> : j \in 1..Len(Parts(kd))}
       /\ links' = links \cup {<<<<a, e[1]>>, <<a, e[2]>>>> : e \in Inner(kd)}
       /\ dirty' = TRUE /\ out' = "ok" /\ UNCHANGED <<conns, comps, used>>
Rename(a, n) ==
  IF NameUsed(n) /\ nodes[a].name # n THEN Refused
  ELSE nodes' = [nodes EXCEPT ![a].name = n] /\ out' = "ok" /\ UNCHANGED <<conns, parts, links, comps, dirty, used>>
CanConnect(a, sa, b, sb) == Joinable(Kind(a)) /\ Joinable(Kind(b)) /\ FromPart(Kind(a), sa) # 0 /\ ToPart(Kind(b), sb) # 0
Connect(a, sa, b, sb) ==
  IF ~CanConnect(a, sa, b, sb) THEN Refused
  ELSE LET c == Conn(a, sa, b, sb) IN
       /\ conns' = conns \cup {c} /\ links' = links \cup {<<<<c[1], c[2]>>, <<c[3], c[4]>>>>}
       /\ dirty' = TRUE /\ out' = "ok" /\ UNCHANGED <<nodes, parts, comps, used>>
Drop(cs) == /\ conns' = conns \ cs /\ links' = links \ {<<<<c[1], c[2]>>, <<c[3], c[4]>>>> : c \in cs}
            /\ dirty' = (dirty \/ cs # {}) /\ out' = "ok" /\ UNCHANGED <<nodes, parts, comps, used>>
\* from every slot of a to one or all of b's
Between(a, b, sb) == {c \in conns : c[1] = a /\ c[3] = b /\ (sb = "-" \/ c[4] = ToPart(Kind(b), sb))}
Disconnect(a, b, sb) == IF Between(a, b, sb) = {} THEN Refused ELSE Drop(Between(a, b, sb))
DisconnectAll(a) == Drop({c \in conns : c[1] = a})
Remove(a) ==
  IF a \notin Ids THEN Refused
  ELSE /\ nodes' = [x \in Ids \ {a} |-> nodes[x]]
       /\ conns' = {c \in conns : c[1] # a /\ c[3] # a}
       /\ parts' = {p \in parts : p[1] # a}
       /\ links' = {e \in links : e[1][1] # a /\ e[2][1] # a}
       /\ dirty' = TRUE /\ out' = "ok" /\ UNCHANGED <<comps, used>>
Foreign == Refused
AddComp(c, n, t, sound) ==
  IF (n # "" /\ CompUsed(n)) \/ ~sound THEN Refused
  ELSE comps' = [x \in DOMAIN comps \cup {c} |-> IF x = c THEN [name |-> n, type |-> t] ELSE comps[x]]
       /\ out' = "ok" /\ UNCHANGED <<nodes, conns, parts, links, dirty, used>>
RenameComp(c, n) ==
  IF CompUsed(n) /\ comps[c].name # n THEN Refused
  ELSE comps' = [comps EXCEPT ![c].name = n] /\ out' = "ok" /\ UNCHANGED <<nodes, conns, parts, links, dirty, used>>
\* a run, or the first steps of one: set up if something has changed
Run(edges) == IF dirty /\ ~CanRun(edges) THEN Refused
       ELSE used' = (IF dirty THEN <<parts, links>> ELSE used) /\ dirty' = FALSE /\ out' = "ok" /\ UNCHANGED <<nodes, conns, parts, links, comps>>
Init == nodes = <<>> /\ conns = {} /\ parts = {} /\ links = {} /\ comps = <<>> /\ dirty = TRUE /\ used = <<{}, {}>> /\ out = "ok"
\* ------------------------------------------------ what holds
Unique == /\ \A a, b \in Ids : a # b => nodes[a].name # nodes[b].name
          /\ \A c, d \in DOMAIN comps : c # d /\ comps[c].name # "" => comps[c].name # comps[d].name
\* connections join slots of present nodes
Sound == \A c \in conns : c[1] \in Ids /\ c[3] \in Ids /\ c[2] # 0 /\ c[4] # 0
\* the graph is what nodes and connections amount to, however they came about
Consistent == /\ parts = UNION {{<<a, j>> : j \in 1..Len(Parts(Kind(a)))} : a \in Ids}
              /\ links = UNION {{<<<<a, e[1]>>, <<a, e[2]>>>> : e \in Inner(Kind(a))} : a \in Ids}
                         \cup {<<<<c[1], c[2]>>, <<c[3], c[4]>>>> : c \in conns}
\* runs allocate by the network there is
UpToDate == ~dirty => used = <<parts, links>> /\ (CanRun(FALSE) \/ CanRun(TRUE))
RoutesSound == \A r \in Routes : /\ Class(r[1]) = "in" /\ Class(r[Len(r)]) = "out"
                                 /\ \A i \in 1..(Len(r) - 1) : <<r[i], r[i + 1]>> \in links /\ Dom(r[i]) = Dom(r[i + 1])
                                 /\ \A i, j \in 1..Len(r) : i # j => r[i] # r[j]
================================================================================
