------------------------------- MODULE MCSeries -------------------------------
(* Day by day, a reader that carries the current entry forward and keeps running sums gives what Series says of each step. *)
EXTENDS Series, FiniteSets, TLC
CONSTANTS Lens, Steps, Days, Starts
VARIABLES s, len, step, t, from, cur, sum, cnt, dsum, dcnt, first
vars == <<s, len, step, t, from, cur, sum, cnt, dsum, dcnt, first>>
Val(i) == (i * 7) % 11
Series0(off, n) == [i \in 1..((Days * 24) \div n + 1) |-> <<off + (i - 1) * n, off + i * n, Val(i)>>]
Init == /\ len \in Lens /\ step \in Steps /\ \E off \in Starts : s = Series0(off - 240, len)
        /\ t = 0 /\ from = 0 /\ cur = 0 /\ sum = 0 /\ cnt = 0 /\ dsum = 0 /\ dcnt = 0 /\ first = 0
\* an hour passes; at its end the reader holds what it has seen since the step began
Begins == {i \in 1..Len(s) : s[i][1] = t}
NewCur == IF Begins # {} THEN CHOOSE i \in Begins : TRUE ELSE IF cur # 0 /\ s[cur][2] <= t THEN 0 ELSE cur
Tick == /\ t < Days * 24 /\ t' = t + 12
        /\ LET new == t - from = step
               f == IF new THEN t ELSE from
               c == NewCur IN
           /\ from' = f /\ cur' = c
           /\ sum' = (IF new THEN 0 ELSE sum) + (IF Begins # {} THEN s[c][3] ELSE 0)
           /\ cnt' = (IF new THEN 0 ELSE cnt) + (IF Begins # {} THEN 1 ELSE 0)
           /\ dsum' = (IF new THEN 0 ELSE dsum) + (IF c # 0 /\ (t - f) % 24 = 0 THEN s[c][3] ELSE 0)
           /\ dcnt' = (IF new THEN 0 ELSE dcnt) + (IF c # 0 /\ (t - f) % 24 = 0 THEN 1 ELSE 0)
           /\ first' = (IF t = f THEN c ELSE first)
        /\ UNCHANGED <<s, len, step>>
\* before time 0 an entry may already be in force
Start == t = 0 /\ cur = 0 /\ At(s, 0) # 0 /\ cur' = At(s, 0) /\ UNCHANGED <<s, len, step, t, from, sum, cnt, dsum, dcnt, first>>
Next == Start \/ ((t > 0 \/ cur = At(s, 0)) /\ Tick)
Spec == Init /\ [][Next]_vars
Ended == t > 0 /\ t - from = step
St == <<from, t>>
Agrees == Ended => /\ Has(s, "finer", St) = (cnt > 0) /\ (cnt > 0 => Value(s, "finer", St) = Div(sum, cnt))
                   /\ Has(s, "start", St) = (first # 0) /\ (first # 0 => Value(s, "start", St) = s[first][3])
                   /\ Has(s, "days", St) = (dcnt > 0) /\ (dcnt > 0 => Value(s, "days", St) = Div(dsum, dcnt))
\* where the series has the length of the step all three agree
Same == (Ended /\ len = step /\ step % 24 = 0 /\ s[1][1] % step = 0 /\ Has(s, "start", St)) => Value(s, "finer", St) = Value(s, "start", St) /\ Value(s, "days", St) = Value(s, "start", St)
Full == (Ended /\ Covers(s, from, t)) => Has(s, "start", St) /\ Has(s, "days", St)
===============================================================================
