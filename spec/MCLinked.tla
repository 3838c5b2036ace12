------------------------------- MODULE MCLinked -------------------------------
(* Small models with a memory (a store taking in what the links bring) running     *)
(* together; every reading is kept, and every model is run again on its own with     *)
(* what it had read.                                                                 *)
EXTENDS Linked, FiniteSets
CONSTANTS NModels, Steps, MaxLinks, Runs, Cap
VARIABLES store,   \* volume of each model
          hist,    \* for each link the values of its quantity: 1 is the start, n + 1 after timestep n
          read,    \* readings [k, step, v]
          alone,   \* the volume each model has when run alone on its readings
          runs, first, taken
mvars == <<lvars, store, hist, read, alone, runs, first, taken>>
MCModels(x) == x.n
MCTimes(x) == x.times
MCScens(x) == [m \in 1..x.n |-> <<1>>]
MCLinks(x) == x.links
LinkSet(n) == [from : 1..n, to : 1..n]
Seqs(S, n) == UNION {[1..i -> S] : i \in 0..n}
Lines == {[i \in 1..Steps |-> <<i, 1>>], [i \in 1..(Steps - 1) |-> <<i, 1>>], [i \in 1..Steps |-> <<i, 2>>]}
Worlds == UNION {{[n |-> n, times |-> t, links |-> ls] : t \in [1..n -> Lines], ls \in Seqs({x \in LinkSet(n) : x.from # x.to}, MaxLinks)} : n \in 1..NModels}
InitVol(m) == m
\* the own inflow of a model, and its store
Own(m, s) == (m + 2 * s) % 3
Least(a, b) == IF a < b THEN a ELSE b
RECURSIVE SumRead(_, _)
SumRead(S, f) == IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN f[k] + SumRead(S \ {k}, f)
Update(v, m, s, in) == (v + Own(m, s) + in) % Cap
Inits == [k \in 1..Len(Links(w)) |-> InitVol(Links(w)[k].from)]
MInit == /\ \E x \in Worlds : LInit(x)
         /\ store = <<>> /\ hist = <<>> /\ read = {} /\ alone = <<>> /\ runs = 0 /\ first = {} /\ taken = 0
MStart == /\ ~running /\ runs < Runs /\ CanStart /\ Start(Inits)
          /\ store' = [m \in 1..w.n |-> InitVol(m)] /\ alone' = store'
          /\ hist' = [k \in 1..Len(w.links) |-> <<InitVol(w.links[k].from)>>] /\ read' = {} /\ runs' = runs + 1 /\ taken' = 0
          /\ first' = first
MTurn == \E m \in 1..w.n :
          /\ CanTurn(m)
          /\ LET in == SumRead(InLinks(m), cur)
                 v == Update(store[m], m, step, in)
             IN /\ store' = [store EXCEPT ![m] = v]
                /\ Turn(m, [k \in OutLinks(m) |-> v])
                /\ hist' = [k \in DOMAIN hist |-> IF k \in OutLinks(m) THEN Append(hist[k], v) ELSE hist[k]]
                /\ read' = read \cup {[k |-> k, s |-> step, v |-> Read(k)] : k \in InLinks(m)}
                /\ alone' = [alone EXCEPT ![m] = Update(alone[m], m, step, SumRead(InLinks(m), [k \in InLinks(m) |-> (CHOOSE r \in read' : r.k = k /\ r.s = step).v]))]
          /\ taken' = taken + 1 /\ UNCHANGED <<runs, first>>
MEnd == CanEnd /\ End /\ first' = (IF runs = 1 THEN {read} ELSE first) /\ UNCHANGED <<store, hist, read, alone, runs, taken>>
MRefuse == ~running /\ runs < Runs /\ CanRefuse /\ Refuse /\ runs' = runs + 1 /\ UNCHANGED <<store, hist, read, alone, first, taken>>
MNext == MStart \/ MTurn \/ MEnd \/ MRefuse
MSpec == MInit /\ [][MNext]_mvars
\* a model before the reader: the same timestep; a model after it: the preceding one
Timely == \A r \in read : r.v = hist[r.k][IF w.links[r.k].from < w.links[r.k].to THEN r.s + 1 ELSE r.s]
Alone == alone = store
\* a run ends with every model having taken every timestep
Whole == (~running /\ store # <<>>) => taken = w.n * N
Refused == store # <<>> => \A m \in 1..w.n : w.times[m] = w.times[1]
\* running again reads the same
Again == (~running /\ runs > 1 /\ store # <<>>) => {read} = first
================================================================================
