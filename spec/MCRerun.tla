------------------------------- MODULE MCRerun -------------------------------
(* A machine with memory - a store that accumulates its inputs, as storages,      *)
(* delays, licences and recorders do - next to the histories of Rerun: what it    *)
(* shows must be what Rerun says.  Its memory is rebuilt by setup and reset.      *)
(* The histories themselves are generated for replay on the real model.           *)
EXTENDS Rerun, TLC, Json
CONSTANTS MaxOps
VARIABLES acc, seen, ops
mvars == <<rvars, acc, seen, ops>>
Input(d) == CASE d = 1 -> <<1, 2, 3>> [] d = 2 -> <<5, 1, 4>> [] d = 3 -> <<2, 2>>
Init0(d) == CASE d = 1 -> 0 [] d = 2 -> 7 [] d = 3 -> 3
RECURSIVE Sum(_, _)
Sum(s, n) == IF n = 0 THEN 0 ELSE s[n] + Sum(s, n - 1)
MCRef(m, d) == [rows |-> [i \in 1..Len(Input(d)) |-> Init0(d) + Sum(Input(d), i)], final |-> Init0(d) + Sum(Input(d), Len(Input(d)))]
Period(a, b) == (a = 3) # (b = 3)
Log(o) == ops' = Append(ops, o)
MInit == RInit(0, 1) /\ acc = 0 /\ seen = TRUE /\ ops = <<>>
Fold(a, n) == a + Input(c)[n]
MNext ==
  /\ Len(ops) < MaxOps
  /\ \/ \E d \in 1..3 : d # c /\ Change(d, Period(c, d)) /\ acc' = acc /\ seen' = TRUE /\ Log(<<"change", d>>)
        \* changed inputs take effect with the next run or reset
     \/ CanReset /\ Reset /\ acc' = Init0(c) /\ seen' = TRUE /\ Log(<<"reset">>)
     \/ CanStep /\ Len(ops) > 0 /\ (ops[Len(ops)][1] = "change" => stale)
        /\ Step /\ acc' = (IF stale THEN Init0(c) + Input(c)[1] ELSE Fold(acc, pos + 1))
        /\ seen' = (acc' = StepRow) /\ Log(<<"step">>)
     \/ Run /\ acc' = Init0(c) + Sum(Input(c), N) /\ seen' = (acc' = RunRows[N]) /\ Log(<<"run">>)
MSpec == MInit /\ [][MNext]_mvars
Same == seen
\* every history that ends with something observable is printed (for replay)
Emit == (Len(ops) = MaxOps /\ ops[MaxOps][1] \in {"run", "step"}) => PrintT(<<"GEN", ToJson(ops)>>)
==============================================================================
