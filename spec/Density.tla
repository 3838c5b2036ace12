-------------------------------- MODULE Density --------------------------------
(* Estimates of how often a storage is how full, made from the volumes of a run, and assertions about the values of a run.
   Volumes, densities and probabilities are ten-thousandths.  vol[t][s]: timestep t, scenario s.                           *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumQ(_, _)
SumQ(q, j) == IF j > Len(q) THEN 0 ELSE q[j] + SumQ(q, j + 1)
Over(how, q) == CASE how = "min" -> CHOOSE x \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : x <= q[i]
                  [] how = "max" -> CHOOSE x \in {q[i] : i \in DOMAIN q} : \A i \in DOMAIN q : x >= q[i]
                  [] how = "mean" -> (2 * SumQ(q, 1) + Len(q)) \div (2 * Len(q))
\* where a volume is between empty (-1), the control curve (0) and full (1)
Relative(v, cc) == IF v < cc THEN (v * 10000) \div cc - 10000 ELSE IF cc >= 10000 THEN 10000 ELSE ((v - cc) * 10000) \div (10000 - cc)
\* groups of timesteps which are taken together
Groups(g) == {g[t] : t \in DOMAIN g}
Pick(vol, g, k, s) == LET T == {t \in DOMAIN g : g[t] = k} IN [i \in 1..Cardinality(T) |-> vol[CHOOSE t \in T : Cardinality({u \in T : u <= t}) = i][s]]
\* the sample: one value for every group and scenario
Sample(vol, g, how) == [x \in Groups(g) \X (DOMAIN vol[1]) |-> Over(how, Pick(vol, g, x[1], x[2]))]
Many(A, lo, hi) == Cardinality({x \in DOMAIN A : A[x] >= lo /\ A[x] <= hi})
(* The probability of being in (lo, t], where lo is the lower bound: the proportion of the sample there, except that what is within three widths
   h of an end may count or not.  Without reflection what is near the lower bound is lost in part. *)
Between(A, lo, t, h, refl, p) ==
  LET n == Cardinality(DOMAIN A)
      sure == Many(A, IF refl THEN lo - 10 ELSE lo + 3 * h, t - 3 * h)
      may == Many(A, lo - 30000, t + 3 * h)
  IN 10000 * sure - 60 * n <= n * p /\ n * p <= 10000 * may + 60 * n
\* the area under the density at equal distances from the i-th to the j-th point (m points from 0 to 1)
Area(f, i, j, m) == LET q == [k \in 1..(j - i + 1) |-> f[i + k - 1]] IN (2 * SumQ(q, 1) - f[i] - f[j]) \div (2 * (m - 1))
\* how far the area can be off, for widths h;  what can't be said is -1
Slack(m, h) == LET r == 1000000 \div ((m - 1) * h) IN IF r > 150 THEN -1 ELSE 60 + (417 * r * r) \div 10000

(* ---- assertions: the first value, by timestep and then by scenario, which isn't the expected one *)
Wrong(exp, act) == {x \in (DOMAIN exp) \X (DOMAIN exp[1]) : exp[x[1]][x[2]] # act[x[1]][x[2]]}
FirstWrong(exp, act) == CHOOSE x \in Wrong(exp, act) : \A y \in Wrong(exp, act) : x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
================================================================================
