------------------------------ MODULE MCDensity ------------------------------
(* What holds of samples, relative volumes, bounds of probabilities and assertions whatever was simulated: a run writes one row of volumes a
   timestep, and after every step the sample made so far is looked at.                                                                      *)
EXTENDS Density, TLC
CONSTANTS Levels, Steps, Scens, Width
VARIABLES vol, exp, curve
vars == <<vol, exp, curve>>
Row == [1..Scens -> Levels]
Init == vol = <<>> /\ exp = <<>> /\ curve \in {c \in Levels : c > 0}
Next == Len(vol) < Steps /\ curve' = curve /\ \E r, x \in Row : vol' = Append(vol, r) /\ exp' = Append(exp, [s \in 1..Scens |-> IF s = 1 THEN x[1] ELSE r[s]])
Spec == Init /\ [][Next]_vars
Group == [t \in DOMAIN vol |-> t \div 2 + 1]
A(how) == Sample(vol, Group, how)
Hows == {"min", "mean", "max"}
\* an estimate without any smoothing is the proportion of the sample
Exact(S, t) == (10000 * Many(S, 0, t)) \div Cardinality(DOMAIN S)
SampleOK == vol # <<>> => \A how \in Hows : LET S == A(how) IN
  /\ Cardinality(DOMAIN S) = Scens * Cardinality(Groups(Group))
  /\ \A x \in DOMAIN S : S[x] >= A("min")[x] /\ S[x] <= A("max")[x]
  /\ \A t \in Levels : Between(S, 0, t, 0, TRUE, Exact(S, t))
  /\ \A t \in Levels : Between(S, 0, t, Width, TRUE, Exact(S, t)) /\ Between(S, 0, t, Width, FALSE, Exact(S, t))
  \* everything is at or below full, and with reflection nothing gets lost
  /\ \A p \in {0, 5000} : ~Between(S, 0, 10000 + 3 * Width, Width, TRUE, p)
RelativeOK == \A v, w \in Levels : LET r == Relative(v, curve) IN
  r >= -10000 /\ r <= 10000 /\ (r >= 0) = (v >= curve) /\ (w >= v => Relative(w, curve) >= r) /\ (v = 10000 => r = 10000) /\ (v = 0 => r = -10000)
AssertOK == vol # <<>> => LET W == Wrong(exp, vol) IN (W = {}) = (exp = vol) /\ (W # {} => LET f == FirstWrong(exp, vol) IN f \in W /\ \A t \in DOMAIN vol : t < f[1] => exp[t] = vol[t])
==============================================================================
