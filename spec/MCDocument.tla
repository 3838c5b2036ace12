------------------------------ MODULE MCDocument -------------------------------
(* Every document of a few definitions: nodes a and v (v needs nodes to be made),  *)
(* components p, q, r and one contained in another, with all references among     *)
(* them (and to names which do not exist), and possibly one flaw.                  *)
EXTENDS Document, TLC
CONSTANTS MaxNeeds, Big
N(x) == [node |-> TRUE, name |-> x, own |-> 0]
C(x) == [node |-> FALSE, name |-> x, own |-> 0]
Own(i) == [node |-> FALSE, name |-> "", own |-> i]
SeqsUpTo(S, n) == {SetSeq \in UNION {[1..m -> S] : m \in 0..n} : \A i, j \in DOMAIN SetSeq : i # j => SetSeq[i] # SetSeq[j]}
RefsC == {N("a"), N("none"), C("p"), C("q"), C("r"), C("none")}
Def(nm, nd, inl, mk, fin) == [name |-> nm, node |-> nd, inline |-> inl, sound |-> TRUE, make |-> mk, finish |-> fin]
Flaws == {"none", "unsound", "twin", "twincomponent"}
Flaw(D0, f) == CASE f = "none" -> D0
                 [] f = "unsound" -> [D0 EXCEPT ![4].sound = FALSE]
                 [] f = "twin" -> Append(D0, [D0[1] EXCEPT !.finish = <<>>])
                 [] f = "twincomponent" -> [D0 EXCEPT ![6].name = "p"]
\* 1 a   2 v   3 p   4 q   5 r   6 contained in p
Docs == {Flaw(<<Def("a", TRUE, FALSE, <<>>, fa), Def("v", TRUE, FALSE, mv, <<>>), Def("p", FALSE, FALSE, Append(mp, Own(6)), <<>>),
               Def("q", FALSE, FALSE, mq, <<>>), Def("r", FALSE, FALSE, mr, <<>>), Def("", FALSE, TRUE, mi, <<>>)>>, f) :
          fa \in SeqsUpTo({C("p"), C("q"), C("none")}, 1), mv \in SeqsUpTo({N("a"), N("v"), N("none")}, 1),
          mp \in SeqsUpTo({C("q"), C("r"), N("a")}, MaxNeeds), mq \in SeqsUpTo(IF Big THEN RefsC ELSE RefsC \ {N("none")}, MaxNeeds),
          mr \in SeqsUpTo({C("p"), C("q"), N("v")}, MaxNeeds), mi \in SeqsUpTo({C("q"), C("p")}, IF Big THEN 1 ELSE 1), f \in Flaws}
MCDefs(x) == x
MInit == k \in Docs /\ Start(k)
MSpec == MInit /\ [][Next]_Vars /\ WF_Vars(Next)
================================================================================
