------------------------------- MODULE Licence --------------------------------
(* Annual licences: an account per scenario which opens in full each calendar year.  Volumes are held in any unit. *)
EXTENDS Integers
\* at the first step of a year on its day n, the days before having been taken at the previous step's rate
Opening(amount, n, prev) == IF amount - (n - 1) * prev < 0 THEN 0 ELSE amount - (n - 1) * prev
Debit(rem, flow, days) == IF rem - flow * days < 0 THEN 0 ELSE rem - flow * days
\* days of a year of len days from its day n on
Left(len, n) == len - n + 1
\* the rate that uses up the remainder by the end of the year
Even(rem, len, n) == rem \div Left(len, n)
===============================================================================
