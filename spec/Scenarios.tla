------------------------------ MODULE Scenarios ------------------------------
(* Which ensemble combinations a run consists of, and in which order.            *)
(* sizes: a sequence of sizes; slices: per scenario a record a, b, st (NONE when  *)
(* not given; an absent slice is all NONE) in Python's sense; combos: explicit    *)
(* combinations (a sequence of index sequences) or <<>> for none.                 *)
EXTENDS Integers, Sequences
NONE == 99
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Wrap(v, n) == IF v < 0 THEN v + n ELSE v
\* the indices 0..n-1 selected by a slice, in order
SliceSeq(n, s) ==
  LET st == IF s.st = NONE THEN 1 ELSE s.st
      a == IF s.a = NONE THEN (IF st > 0 THEN 0 ELSE n - 1) ELSE IF st > 0 THEN Clip(Wrap(s.a, n), 0, n) ELSE Clip(Wrap(s.a, n), -1, n - 1)
      b == IF s.b = NONE THEN (IF st > 0 THEN n ELSE -1) ELSE IF st > 0 THEN Clip(Wrap(s.b, n), 0, n) ELSE Clip(Wrap(s.b, n), -1, n - 1)
      len == IF st > 0 THEN (IF a < b THEN (b - a + st - 1) \div st ELSE 0) ELSE (IF b < a THEN (a - b - st - 1) \div (0 - st) ELSE 0)
  IN [i \in 1..len |-> a + (i - 1) * st]
\* the product of a sequence of sequences, the last one varying fastest
RECURSIVE Product(_)
Product(ss) == IF ss = <<>> THEN << <<>> >>
               ELSE LET rest == Product(Tail(ss))
                        h == Head(ss)
                    IN [k \in 1..(Len(h) * Len(rest)) |-> <<h[((k - 1) \div Len(rest)) + 1]>> \o rest[((k - 1) % Len(rest)) + 1]]
Combos(sizes, slices, combos) ==
  IF sizes = <<>> THEN << <<0>> >>
  ELSE IF combos # <<>> THEN combos
  ELSE Product([i \in 1..Len(sizes) |-> SliceSeq(sizes[i], slices[i])])
Shape(sizes, slices, combos) ==
  IF combos # <<>> THEN <<Len(combos)>> ELSE IF sizes = <<>> THEN <<1>>
  ELSE [i \in 1..Len(sizes) |-> Len(SliceSeq(sizes[i], slices[i]))]
\* explicit combinations must name existing ensembles
Valid(sizes, combos) == \A k \in 1..Len(combos) : Len(combos[k]) = Len(sizes) /\ \A i \in 1..Len(sizes) : combos[k][i] >= 0 /\ combos[k][i] < sizes[i]
================================================================================
