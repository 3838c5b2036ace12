------------------------------- MODULE MCBisect -------------------------------
(* The search by halving, for every limit, bounds and tolerance.                    *)
EXTENDS Optimise, TLC
CONSTANTS Most_, Unit
VARIABLES lb, ub, eps, limit, fail, lo, hi, best, done, result, runs
bvars == <<lb, ub, eps, limit, fail, lo, hi, best, done, result, runs, OVars>>
None == -1
BInit == /\ start = <<>> /\ mem = <<>> /\ bounds = <<>> /\ said = "ok"
         /\ lb \in {Unit * n : n \in 0..(Most_ - 1)} /\ ub \in {Unit * n : n \in 1..Most_} /\ lb < ub
         /\ eps \in {Unit \div 4, Unit \div 2, Unit, 2 * Unit} /\ eps < ub - lb
         /\ limit \in {(Unit \div 2) * n - 1 : n \in 0..(2 * Most_ + 1)} \cup {Unit * n : n \in 0..(Most_ + 1)} /\ fail \in BOOLEAN
         /\ lo = lb /\ hi = ub /\ best = None /\ done = FALSE /\ result = [ok |-> FALSE, v |-> 0] /\ runs = <<>>
Try == /\ ~done /\ hi - lo > eps
       /\ LET mid == (hi + lo) \div 2 IN
          /\ runs' = Append(runs, mid)
          /\ IF mid <= limit THEN lo' = mid /\ best' = (IF mid > best THEN mid ELSE best) /\ hi' = hi ELSE hi' = mid /\ UNCHANGED <<lo, best>>
       /\ UNCHANGED <<lb, ub, eps, limit, fail, done, result, OVars>>
Finish == /\ ~done /\ hi - lo <= eps /\ done' = TRUE
          /\ result' = (IF best # None THEN [ok |-> TRUE, v |-> best] ELSE IF fail THEN [ok |-> FALSE, v |-> 0] ELSE [ok |-> TRUE, v |-> lb])
          /\ runs' = (IF result'.ok THEN Append(runs, result'.v) ELSE runs)
          /\ UNCHANGED <<lb, ub, eps, limit, fail, lo, hi, best, OVars>>
BSpec == BInit /\ [][Try \/ Finish]_bvars /\ WF_bvars(Try \/ Finish)
Bracket == /\ lb <= lo /\ lo <= hi /\ hi <= ub /\ (best # None => best = lo /\ best <= limit) /\ (hi < ub => hi > limit)
Right == done => Found(lb, ub, eps, limit, fail, 1, result)
\* the last run is the one of the result, so that the model shows it
Shows == done /\ result.ok => runs[Len(runs)] = result.v
Ends == <>done
================================================================================
