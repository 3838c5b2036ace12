------------------------------ MODULE MCCombine -------------------------------
(* Parameters evaluated in any order in which each follows those it reads: the result does not depend on the order.  Laws relating
   the combining parameters to one another, over small values. *)
EXTENDS Combine, TLC
CONSTANTS Hundreds, Shapes
VARIABLES leaf, shape, V, done
vars == <<leaf, shape, V, done>>
D0 == [op |-> "const", fn |-> "", a |-> <<>>, n |-> <<0>>, xs |-> <<-3000, 0, 1000, 3000>>, ys |-> <<2000, -1000, 1500, 0>>, yy |-> <<>>, sc |-> 1, src |-> "p", fill |-> <<500, -500>>, node |-> 1, cap |-> 0, floor |-> 0, head |-> 0]
W == [i |-> 0, s |-> 1, tab |-> <<>>, mem |-> <<1>>, vol |-> 500, cap |-> 2000, prev |-> <<1200>>, year |-> 2004, first |-> TRUE]
Op(op, a) == [D0 EXCEPT !.op = op, !.a = a]
Agg(fn, a) == [Op("agg", a) EXCEPT !.fn = fn]
\* graphs of parameters: 1 and 2 are leaves
Defs ==
  CASE shape = 1 -> <<[D0 EXCEPT !.n = <<leaf[1]>>], [D0 EXCEPT !.n = <<leaf[2]>>], Agg("sum", <<1, 2>>), Op("neg", <<3>>), Agg("min", <<4, 1>>), Agg("median", <<1, 2, 3, 4, 5>>)>>
    [] shape = 2 -> <<[D0 EXCEPT !.n = <<leaf[1]>>], [D0 EXCEPT !.n = <<leaf[2]>>], Op("interp", <<1>>), [Op("max", <<3>>) EXCEPT !.n = <<leaf[2]>>], Op("interp", <<4>>), Agg("product", <<5, 2>>)>>
    [] shape = 3 -> <<[D0 EXCEPT !.n = <<leaf[1]>>], [D0 EXCEPT !.n = <<leaf[2]>>], [Op("off", <<2>>) EXCEPT !.n = <<100>>], Op("div", <<1, 2>>), Agg("mean", <<3, 4, 1>>), Op("quad", <<3, 5>>)>>
RECURSIVE Direct(_)
Direct(i) == LET d == Defs[i] IN Give(d, W, [j \in 1..(i - 1) |-> IF \E k \in DOMAIN d.a : d.a[k] = j THEN Direct(j) ELSE 0])
Init == leaf \in [1..2 -> {(h - 20) * 100 : h \in Hundreds}] /\ leaf[2] # 0 /\ shape \in Shapes /\ V = [i \in 1..6 |-> 7777] /\ done = {}
Ready(i) == i \notin done /\ \A k \in DOMAIN Defs[i].a : Defs[i].a[k] \in done
Next == \E i \in 1..6 : Ready(i) /\ V' = [V EXCEPT ![i] = Give(Defs[i], W, V)] /\ done' = done \cup {i} /\ UNCHANGED <<leaf, shape>>
Spec == Init /\ [][Next]_vars
AnyOrder == done = 1..6 => \A i \in 1..6 : V[i] = Direct(i)
Close(a, b, t) == Abs(a - b) <= t
x == leaf[1]
y == leaf[2]
T == D0.xs
Laws == done = {} =>
  /\ Aggregate("min", <<x, y>>) = -Aggregate("max", <<-x, -y>>)
  /\ Median(<<x, y>>) = Aggregate("mean", <<x, y>>)
  /\ Median(<<x, y, x>>) = x
  /\ Least(<<x, y, 0>>) <= Median(<<x, y, 0>>) /\ Median(<<x, y, 0>>) <= Most(<<x, y, 0>>)
  /\ Give([Op("nmax", <<1>>) EXCEPT !.n = <<y>>], W, <<x>>) = -Give([Op("min", <<1>>) EXCEPT !.n = <<-y>>], W, <<x>>)
  /\ Give([Op("nmin", <<1>>) EXCEPT !.n = <<y>>], W, <<x>>) = -Give([Op("max", <<1>>) EXCEPT !.n = <<-y>>], W, <<x>>)
  /\ Close(Mul(Dvd(x, y), y), x, 1 + Abs(y) \div 1000)
  /\ Mul(x, y) = Mul(y, x) /\ Close(Mul(x, -y), -Mul(x, y), 1)
  \* areas add up, turn with the bounds and follow the lines
  /\ Close(Quad(D0, x, y), -Quad(D0, y, x), 0)
  /\ Close(Quad(D0, -3000, x) + Quad(D0, x, y), Quad(D0, -3000, y), 4)
  /\ \A i \in 1..4 : Lookup(D0, T[i]) = D0.ys[i]
  /\ Lookup(D0, -3001) = 500 /\ Lookup(D0, 3001) = -500
  /\ (x <= y => Steps(<<1000, 2000>>, <<700, 300>>, x, 0, 1) <= Steps(<<1000, 2000>>, <<700, 300>>, y, 0, 1))
  /\ Close(Poly(<<1000, x, 0, 500>>, y, 1), 1000 + Mul(x, y) + Mul(500, Pow(y, 3)), 8)
  /\ Close(Poly2(<<<<1000, x>>, <<y, 500>>>>, x, y, 1), 1000 + Mul(x, y) + Mul(y, x) + Mul(Mul(500, x), y), 8)
  /\ Close(Mul(Exp(x), Exp(-x)), 1000, 1 + Exp(Abs(x)) \div 1000)
Known == /\ Close(Exp(1000), 2718, 1) /\ Close(Exp(-1000), 368, 1) /\ Close(Exp(2000), 7389, 3) /\ Close(Exp(-4000), 18, 1) /\ Close(Exp(4000), 54598, 20) /\ Exp(0) = 1000
         /\ Close(Discount(50, 10), 613913, 5) /\ Close(Discount(50, -10), 1628895, 9) /\ Discount(50, 0) = 1000000
         /\ Close(Hydro(10000, 5000, 800, 1000, 1000), 2548, 2)
         /\ Keating(<<1000, 2000>>, <<500, 3000>>, 1000, 2500, 1) = 1500 + 3000
===============================================================================
