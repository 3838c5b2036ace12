------------------------------- MODULE Combine --------------------------------
(* What each combining parameter gives from the values of the parameters it combines and the state at the start of the timestep.
   A definition d is a record: op, fn (aggregation), a (the parameters it reads), n (numbers), xs and ys (tables), sc (scenario).
   V[i] is the value of parameter i; indices are held as whole thousands.
   w is the world seen by the parameter in one scenario: its member of every scenario, volumes, capacities and previous flows. *)
EXTENDS Fixed, FiniteSets
\* the k-th smallest of a sequence
Kth(s, k) == LET I == DOMAIN s IN s[CHOOSE i \in I : Cardinality({j \in I : s[j] < s[i]}) < k /\ Cardinality({j \in I : s[j] <= s[i]}) >= k]
Median(s) == LET n == Len(s) IN IF n % 2 = 1 THEN Kth(s, (n + 1) \div 2) ELSE R(Kth(s, n \div 2) + Kth(s, n \div 2 + 1), 2)
\* the caller's own function used here: twice the first less the last
Custom(s) == 2 * s[1] - s[Len(s)]
Aggregate(fn, s) ==
  CASE fn = "sum" -> Total(s)
    [] fn = "product" -> Product(s)
    [] fn = "max" -> Most(s)
    [] fn = "min" -> Least(s)
    [] fn = "mean" -> R(Total(s), Len(s))
    [] fn = "median" -> Median(s)
    [] fn = "any" -> IF \E i \in DOMAIN s : s[i] # 0 THEN One ELSE 0
    [] fn = "all" -> IF \A i \in DOMAIN s : s[i] # 0 THEN One ELSE 0
    [] fn = "custom" -> Custom(s)
\* straight lines between the points of a table; outside it the fill values, if there are any
Inside(d, x) == d.xs[1] <= x /\ x <= d.xs[Len(d.xs)]
Line(xs, ys, x) == LET j == CHOOSE i \in 1..(Len(xs) - 1) : xs[i] <= x /\ x <= xs[i + 1] IN ys[j] + Part(ys[j + 1] - ys[j], x - xs[j], xs[j + 1] - xs[j])
Lookup(d, x) == IF x < d.xs[1] THEN d.fill[1] ELSE IF x > d.xs[Len(d.xs)] THEN d.fill[2] ELSE Line(d.xs, d.ys, x)
\* the area under those lines between two bounds
RECURSIVE Area(_, _, _, _)
Area(d, a, b, j) ==
  IF j >= Len(d.xs) THEN 0
  ELSE LET lo == Hi2(a, d.xs[j]) hi == Lo2(b, d.xs[j + 1]) IN
    (IF lo < hi THEN R(Mul(Line(d.xs, d.ys, lo) + Line(d.xs, d.ys, hi), hi - lo), 2) ELSE 0) + Area(d, a, b, j + 1)
Quad(d, a, b) == IF a <= b THEN Area(d, a, b, 1) ELSE -Area(d, b, a, 1)
\* the integral from zero of a function constant between the points
RECURSIVE Steps(_, _, _, _, _)
Steps(xs, ys, x, prev, j) == IF j > Len(xs) \/ x <= prev THEN 0 ELSE Mul(Lo2(x, xs[j]) - prev, ys[j]) + Steps(xs, ys, x, xs[j], j + 1)
RECURSIVE Poly(_, _, _)
Poly(cs, x, j) == IF j > Len(cs) THEN 0 ELSE cs[j] + Mul(x, Poly(cs, x, j + 1))
RECURSIVE Poly2(_, _, _, _)
Poly2(cs, x, y, j) == IF j > Len(cs) THEN 0 ELSE Poly(cs[j], y, 1) + Mul(x, Poly2(cs, x, y, j + 1))
\* flow needed for a hydropower target: power over head, with efficiency etc. as thousandths
Hydro(power, head, eff, conv, dens) == Dvd(power, R(R(Mul(Mul(head, eff), conv) * 981, 1000) * dens, 1000))
\* discount factors in millionths
RECURSIVE Discount(_, _)
Discount(rate, n) == IF n = 0 THEN 1000000
                     ELSE IF n > 0 THEN LET d == Discount(rate, n - 1) IN (d \div (1000 + rate)) * 1000 + R((d % (1000 + rate)) * 1000, 1000 + rate)
                     ELSE LET d == Discount(rate, n + 1) IN d + R(d * rate, 1000)
RECURSIVE Keating(_, _, _, _, _)
Keating(levels, trans, coef, level, j) ==
  IF j > Len(levels) THEN 0 ELSE (IF level > levels[j] THEN Mul(2 * Mul(trans[j], level - levels[j]), coef) ELSE 0) + Keating(levels, trans, coef, level, j + 1)
Source(d, w, V) == CASE d.src = "p" -> V[d.a[1]] [] d.src = "vol" -> w.vol [] d.src = "pc" -> DivPos(w.vol, w.cap) [] d.src = "flow" -> w.prev[d.node]
Vals(d, V) == [i \in DOMAIN d.a |-> V[d.a[i]]]
Give(d, w, V) ==
  CASE d.op \in {"tab", "xtab"} -> w.tab[d.node][w.i + 1][w.s]
    [] d.op = "const" -> d.n[1]
    [] d.op \in {"scen", "xscen"} -> d.n[w.mem[d.sc]]
    [] d.op \in {"agg", "xagg"} -> Aggregate(d.fn, Vals(d, V))
    [] d.op = "div" -> Dvd(V[d.a[1]], V[d.a[2]])
    [] d.op = "neg" -> -V[d.a[1]]
    [] d.op = "max" -> Hi2(V[d.a[1]], d.n[1])
    [] d.op = "nmax" -> Hi2(-V[d.a[1]], d.n[1])
    [] d.op = "min" -> Lo2(V[d.a[1]], d.n[1])
    [] d.op = "nmin" -> Lo2(-V[d.a[1]], d.n[1])
    [] d.op = "off" -> V[d.a[1]] + d.n[1]
    [] d.op = "scale" -> Mul(V[d.a[1]], d.n[1])
    [] d.op = "pick" -> V[d.a[V[d.a[1]] \div 1000 + 2]]
    [] d.op = "wrap" -> V[d.a[w.mem[d.sc]]]
    [] d.op = "interp" -> Lookup(d, Source(d, w, V))
    [] d.op = "quad" -> Quad(d, IF Len(d.a) = 2 THEN V[d.a[2]] ELSE 0, V[d.a[1]])
    [] d.op = "piece" -> Steps(d.xs, d.ys, V[d.a[1]], 0, 1)
    [] d.op = "poly" -> Poly(d.ys, Mul(Source(d, w, V), d.n[1]) + d.n[2], 1)
    [] d.op = "poly2" -> Poly2(d.yy, Mul(Source([d EXCEPT !.src = d.fn], w, V), d.n[1]) + d.n[2], Mul(V[d.a[1]], d.n[3]) + d.n[4], 1)
    [] d.op = "disc" -> R(Discount(d.n[1], w.year - d.n[2]), 1000)
    [] d.op = "state" -> IF d.src = "flow" /\ w.first THEN d.n[1] ELSE Source(d, w, V)
    [] d.op = "hydro" -> LET head == Hi2(IF d.head = 0 THEN d.n[1] ELSE V[d.head] - d.n[1], 0)
                             flow == IF head = 0 THEN 2000000000 ELSE Hydro(V[d.a[1]], head, d.n[3], d.n[4], d.n[5])
                             capped == IF d.cap = 0 THEN flow ELSE Lo2(flow, V[d.cap]) IN
                         IF head < d.n[2] THEN 0 ELSE IF d.floor = 0 THEN capped ELSE Hi2(capped, V[d.floor])
    [] d.op = "keat" -> Keating(d.xs, d.ys, d.n[1], V[d.a[1]], 1)
    [] d.op = "step" -> IF d.n[1] > 0 THEN d.n[2] ELSE 0
    [] d.op = "rect" -> IF d.n[1] > 0 THEN d.n[2] + Part(d.n[3] - d.n[2], d.n[1], d.n[4]) ELSE 0
    [] d.op = "logi" -> Dvd(d.n[2], One + Exp(-Mul(d.n[1], d.n[3])))
    [] d.op = "func" -> 1000 * w.i + 250 * w.s
\* the largest change of the result that a change of one thousandth in what it reads can make, and the rounding here
RECURSIVE Deriv(_, _, _)
Deriv(cs, x, j) == IF j > Len(cs) THEN 0 ELSE Abs(cs[j]) * (j - 1) + Mul(Abs(x) + 10, Deriv(cs, x, j + 1))
Slope(d) == Most([i \in 1..(Len(d.xs) - 1) |-> (Abs(d.ys[i + 1] - d.ys[i]) \div (d.xs[i + 1] - d.xs[i])) + 1])
Biggest(s) == Most([i \in DOMAIN s |-> Abs(s[i])])
Slack(d, w, V) ==
  CASE d.op \in {"tab", "xtab", "const", "scen", "xscen", "xagg", "neg", "max", "nmax", "min", "nmin", "pick", "wrap", "step", "func"} -> 1
    [] d.op = "agg" -> IF d.fn = "product" THEN 3 + Total([i \in DOMAIN d.a |-> Abs(Product([j \in 1..(Len(d.a) - 1) |-> V[d.a[IF j < i THEN j ELSE j + 1]]])) \div 1000]) ELSE 2 + Len(d.a)
    [] d.op = "div" -> 3 + 1500 \div Abs(V[d.a[2]]) + Abs(Dvd(Dvd(V[d.a[1]], V[d.a[2]]), V[d.a[2]])) \div 1000
    [] d.op = "off" -> 2
    [] d.op = "scale" -> 3 + Abs(d.n[1]) \div 1000
    [] d.op = "interp" -> 2 + Slope(d)
    [] d.op = "quad" -> 6 + 2 * Len(d.xs) + Biggest(d.ys) \div 500
    [] d.op = "piece" -> 4 + Biggest(d.ys) \div 1000
    [] d.op = "poly" -> 20 + Mul(Abs(d.n[1]) + 2000, Deriv(d.ys, Mul(Source(d, w, V), d.n[1]) + d.n[2], 2)) \div 1000
    [] d.op = "poly2" -> 20 + Mul(Abs(d.n[1]) + Abs(d.n[3]) + 4000, 20 * Total([i \in DOMAIN d.yy |-> Total([j \in DOMAIN d.yy[i] |-> Abs(d.yy[i][j])])])) \div 1000
    [] d.op = "disc" -> 2
    [] d.op = "state" -> 2
    [] d.op = "hydro" -> 5 + Lo2(2000000, Abs(Give(d, w, V))) \div 30
    [] d.op = "keat" -> 10 + Total(d.ys) \div 200
    [] d.op = "rect" -> 2
    [] d.op = "logi" -> 5 + Abs(d.n[2]) \div 200
\* a look-up outside its table, without values to fill with, cannot be answered
Outside(d, w, V) == d.op = "interp" /\ d.fill = <<>> /\ ~Inside(d, Source(d, w, V))
Inside2(d, w, V) == d.op = "interp" /\ d.fill = <<>> => d.xs[1] + 2 <= Source(d, w, V) /\ Source(d, w, V) <= d.xs[Len(d.xs)] - 2
\* an index beyond the parameters to pick from
Beyond(d, V) == d.op = "pick" /\ V[d.a[1]] \div 1000 + 2 > Len(d.a)
===============================================================================
