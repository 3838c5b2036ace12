-------------------------------- MODULE MCEdit ---------------------------------
(* Every history of edits (legal and not) of a few nodes and names.               *)
EXTENDS Edit, TLC
CONSTANTS MaxNodes, MaxLen, Kinds, Names
VARIABLE len
K(t, o, i, n, x, s) == [t |-> t, o |-> o, i |-> i, n |-> n, x |-> x, slots |-> s]
MCPlain == {K("input", 0, 0, 0, 0, <<>>), K("output", 0, 0, 0, 0, <<>>), K("storage", 1, 2, 0, 0, <<>>)}
MCCompound == {K("input", 0, 0, 0, 0, <<>>), K("output", 0, 0, 0, 0, <<>>), K("split", 0, 0, 1, 1, <<"0", "b">>), K("piecewise", 0, 0, 2, 0, <<>>)}
MCMore == MCPlain \cup MCCompound \cup {K("link", 0, 0, 0, 0, <<>>), K("break", 0, 0, 0, 0, <<>>), K("delay", 0, 0, 0, 0, <<>>), K("loss", 0, 0, 0, 0, <<>>), K("agg", 0, 0, 0, 0, <<>>)}
Slots == {"-", "0", "1", "b"}
Fresh == IF Ids = {} THEN 1 ELSE (CHOOSE m \in Ids : \A x \in Ids : x <= m) + 1
MInit == Init /\ len = 0
MNext == /\ len < MaxLen /\ len' = len + 1
         /\ \/ Cardinality(Ids) < MaxNodes /\ \E n \in Names, kd \in Kinds, s \in BOOLEAN : Add(Fresh, n, kd, s)
            \/ \E a \in Ids, n \in Names : Rename(a, n)
            \/ \E a, b \in Ids, sa, sb \in Slots : Connect(a, sa, b, sb)
            \/ \E a, b \in Ids, sb \in Slots : Disconnect(a, b, sb)
            \/ \E a \in Ids : DisconnectAll(a)
            \/ \E a \in Ids \cup {99} : Remove(a)
            \/ \E edges \in BOOLEAN : Run(edges)
MSpec == MInit /\ [][MNext]_<<EVars, len>>
\* a refused edit changes nothing; disconnecting undoes connecting; removing undoes adding
Unchanged == [][out' = "refused" => nodes' = nodes /\ conns' = conns /\ parts' = parts /\ links' = links /\ comps' = comps]_<<EVars, len>>
================================================================================
