-------------------------------- MODULE Record --------------------------------
(* Series kept by timestep, and the totals, means, extremes, percentiles and curves defined over them.
   Numbers are in thousandths. *)
EXTENDS Fixed, FiniteSets
Gap == -2000000001
Known(xs) == SelectSeq(xs, LAMBDA x : x # Gap)
HasGap(xs) == \E i \in DOMAIN xs : xs[i] = Gap
Below(xs, v) == Cardinality({i \in DOMAIN xs : xs[i] < v})
UpTo(xs, v) == Cardinality({i \in DOMAIN xs : xs[i] <= v})
\* the k-th smallest
Kth(xs, k) == xs[CHOOSE i \in DOMAIN xs : Below(xs, xs[i]) < k /\ k <= UpTo(xs, xs[i])]
\* between the order statistics about place (n - 1) p / 100
Percentile(xs, p) == LET at == (Len(xs) - 1) * p  lo == at \div 100  f == at % 100 IN
                     IF f = 0 THEN Kth(xs, lo + 1) ELSE Kth(xs, lo + 1) + R((Kth(xs, lo + 2) - Kth(xs, lo + 1)) * f, 100)
Mean(xs) == R(Total(xs), Len(xs))
\* percentage of values under the score
OfScore(xs, score, kind) ==
  LET l == Below(xs, score) r == UpTo(xs, score) n == Len(xs) IN
  CASE kind = "strict" -> R(100000 * l, n) [] kind = "weak" -> R(100000 * r, n) [] kind = "mean" -> R(50000 * (l + r), n)
    [] kind = "rank" -> R(50000 * (l + r + (IF l < r THEN 1 ELSE 0)), n)
\* fn: name, and its argument and kind
Plain(f, xs) ==
  CASE f.fn = "sum" -> Total(xs) [] f.fn = "min" -> Least(xs) [] f.fn = "max" -> Most(xs) [] f.fn = "mean" -> Mean(xs)
    [] f.fn = "median" -> Percentile(xs, 50) [] f.fn = "product" -> Product(xs) [] f.fn = "range" -> Most(xs) - Least(xs)
    [] f.fn = "percentile" -> Percentile(xs, f.p) [] f.fn = "percentileofscore" -> OfScore(xs, f.p * 125, f.kind)
    [] f.fn = "count_nonzero" -> 1000 * Cardinality({i \in DOMAIN xs : xs[i] # 0})
\* a gap makes the answer a gap unless it is to be ignored
Agg(f, xs, ignore) ==
  IF ignore THEN LET k == Known(xs) IN IF k = <<>> THEN Gap ELSE Plain(f, k)
  ELSE IF HasGap(xs) /\ f.fn # "count_nonzero" THEN Gap ELSE Plain(f, xs)
\* the last n entries
Window(xs, n) == IF Len(xs) <= n THEN xs ELSE SubSeq(xs, Len(xs) - n + 1, Len(xs))
\* relative to a curve: full at 1, on the curve at 0, empty at -1; the volume in millionths of the maximum
Normalised(pc, cc) == IF pc < 1000 * cc THEN R(pc, cc) - 1000 ELSE IF cc >= 1000 THEN 1000 ELSE R(pc - 1000 * cc, 1000 - cc)
Ratio(flow, max, none) == IF max = 0 THEN none ELSE Dvd(flow, max)
\* how far a curve is above its upper or below its lower target, relative to it
Deviation(x, lower, upper) ==
  IF (upper = 0) \/ (lower = 0) THEN Gap
  ELSE LET u == IF upper = Gap THEN 0 ELSE Dvd(x - upper, upper) w == IF lower = Gap THEN 0 ELSE Dvd(lower - x, lower) IN Most(<<u, w, 0>>)
\* bounds on an aggregated value
Violated(v, lb, ub) == (lb # Gap /\ v < lb) \/ (ub # Gap /\ v > ub)
===============================================================================
