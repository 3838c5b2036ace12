------------------------------- MODULE MCTables -------------------------------
(* Small tables kept in two arrangements of their rows and columns, with readers which ask for every possible selection in any order, of
   sources whose content matches the declared checksums or does not. *)
EXTENDS Tables, TLC
CONSTANTS R, C, Reads
VARIABLES t, u, log
vars == <<t, u, log>>
Perms(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]}
Cell(r, c) == 10 * r + c
Table(rs, cs) == [rows |-> rs, cols |-> cs, v |-> [i \in DOMAIN rs |-> [j \in DOMAIN cs |-> Cell(rs[i], cs[j])]]]
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Lists(S) == UNION {[1..n -> S] : n \in 1..2}
Asks == {a \in [column : Opt(C \cup {0}), columns : Opt(Lists(C \cup {0})), index : Opt(R \cup {0}), indexes : Opt(Lists(R))] :
           /\ (a.column = <<>> \/ (a.columns = <<>> /\ a.indexes = <<>>)) /\ (a.index = <<>> \/ a.indexes = <<>>)}
Init == /\ t = Table([i \in 1..Cardinality(R) |-> i], [i \in 1..Cardinality(C) |-> i]) /\ \E rs \in Perms(R), cs \in Perms(C) : u = Table(rs, cs)
        /\ log = <<>>
Ask == /\ Len(log) < Reads
       /\ \E a \in Asks, there, good \in BOOLEAN : log' = Append(log, [a |-> a, there |-> there, good |-> good, x |-> Read(t, a, there, TRUE, <<TRUE, good>>), y |-> Read(u, a, there, TRUE, <<TRUE, good>>)])
       /\ UNCHANGED <<t, u>>
Next == Ask
Spec == Init /\ [][Next]_vars
Last == log[Len(log)]
Verified == log # <<>> => (Last.x.ok => Last.there /\ Last.good)
NoGuess == log # <<>> => (Last.x.ok => /\ \A i \in DOMAIN Last.x.rows : \A j \in DOMAIN Last.x.cols : Last.x.v[i][j] = Cell(Last.x.rows[i], Last.x.cols[j])
                                       /\ \A i \in DOMAIN Last.a.column : Last.x.cols = Last.a.column
                                       /\ \A i \in DOMAIN Last.a.index : Last.x.rows = Last.a.index)
Missing == log # <<>> => ((~Known(t, Last.a)) => ~Last.x.ok)
Answered == log # <<>> => (Known(t, Last.a) /\ Last.there /\ Last.good => Last.x.ok)
Arrangement == log # <<>> => /\ Last.x.ok = Last.y.ok
                             /\ Last.x.ok => \A i \in DOMAIN Last.x.rows : \A j \in DOMAIN Last.x.cols :
                                   \E k \in DOMAIN Last.y.rows : \E m \in DOMAIN Last.y.cols : Last.y.rows[k] = Last.x.rows[i] /\ Last.y.cols[m] = Last.x.cols[j] /\ Last.y.v[k][m] = Last.x.v[i][j]
CellFree == log # <<>> => (Last.x.shape = "cell" => Last.x = Last.y)
Stepwise == log # <<>> => (Last.x.shape = "cell" => LET w == Select(t, [NoAsk EXCEPT !.column = Last.a.column]) IN Select([rows |-> w.rows, cols |-> w.cols, v |-> w.v], Last.a) = Last.x)
Repeat == \A i, j \in DOMAIN log : (log[i].a = log[j].a /\ log[i].there = log[j].there /\ log[i].good = log[j].good) => log[i].x = log[j].x
===============================================================================
