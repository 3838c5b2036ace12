------------------------------- MODULE TraceLib -------------------------------
(* Reading recorded traces and reporting every clause a trace violates.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Doc == JsonDeserialize(IOEnv.TRACE)
Cases == Doc.cases
NAN == -2000000001
INF == 2000000000
\* the set of names of the clauses that do not hold
Failed(clauses) == {n \in DOMAIN clauses : ~clauses[n]}
\* always TRUE; prints the names of violated clauses
Report(c, l, bad) == IF bad = {} THEN TRUE ELSE PrintT(ToString(<<"MISMATCH", c, l, bad>>) \o "@")
Near(a, b, tol) == IF a = NAN \/ b = NAN \/ a = INF \/ b = INF \/ a = -INF \/ b = -INF THEN a = b
                   ELSE a - b <= tol /\ b - a <= tol
\* rounded division for positive d
RDiv(a, d) == (2 * a + d) \div (2 * d)
===============================================================================
