-------------------------------- MODULE Bands ---------------------------------
(* Bands of a storage or of any quantity set by descending curves, and thresholds with or without a ratchet.
   Proportions are held in 12800ths (curves and volumes that are multiples of 1/64 and 1/128 are whole), values in thousandths. *)
EXTENDS Fixed
P == 12800
\* the first curve reached, from the highest down; one more than their number if none is (counting from 1)
Band(x, curves) == IF \E j \in DOMAIN curves : x >= curves[j]
                   THEN CHOOSE j \in DOMAIN curves : x >= curves[j] /\ \A i \in 1..(j - 1) : x < curves[i]
                   ELSE Len(curves) + 1
\* the bands a quantity known only to within e may be in
Bands(x, curves, e) == {j \in 1..(Len(curves) + 1) : (\A i \in 1..(j - 1) : x - e < curves[i]) /\ (j <= Len(curves) => x + e >= curves[j])}
\* straight lines from the first value at 100%, through one at each curve, to the last at 0%
OnLine(x, lo, up, vlo, vup) == IF up = lo THEN vlo ELSE vlo + Part(vup - vlo, x - lo, up - lo)
Upper(curves, j) == IF j = 1 THEN P ELSE curves[j - 1]
Lower(curves, j) == IF j <= Len(curves) THEN curves[j] ELSE 0
Interpolated(x, curves, vals, j) == OnLine(x, Lower(curves, j), Upper(curves, j), vals[j + 1], vals[j])
\* a pair of values for each band, at its top and at its bottom, held beyond them
Piecewise(x, curves, pairs, min, max, j) ==
  LET up == IF j = 1 THEN max ELSE curves[j - 1]
      lo == IF j <= Len(curves) THEN curves[j] ELSE min IN
    IF x < lo THEN pairs[j][2] ELSE IF x > up THEN pairs[j][1] ELSE OnLine(x, lo, up, pairs[j][2], pairs[j][1])
\* relations
Holds(rel, x, t) ==
  CASE rel = "LT" -> x < t [] rel = "GT" -> x > t [] rel = "LE" -> x <= t [] rel = "GE" -> x >= t [] rel = "EQ" -> x = t
\* the answers a comparison of quantities known to within e may give
Answers(rel, x, t, e) == {IF Holds(rel, x + k, t) THEN 1 ELSE 0 : k \in (-e)..e}
\* a ratchet stays on; what a threshold compares with, but does not itself answer, does not set it
Switch(ratchet, on, ans) == IF ratchet /\ on THEN 1 ELSE ans
===============================================================================
