-------------------------------- MODULE Dist --------------------------------
(* Distances between lattice points, in thousandths, rounded down.           *)
EXTENDS Integers, Sequences
RECURSIVE IRoot(_, _, _)
IRoot(n, lo, hi) == IF hi - lo <= 1 THEN lo
                    ELSE LET m == (lo + hi) \div 2
                         IN IF m * m <= n THEN IRoot(n, m, hi) ELSE IRoot(n, lo, m)
Sq(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
\* exact along the axes; elsewhere the coordinates must differ by less than 32
Milli(a, b) ==
  IF a[1] = b[1] THEN 1000 * (IF a[2] > b[2] THEN a[2] - b[2] ELSE b[2] - a[2])
  ELSE IF a[2] = b[2] THEN 1000 * (IF a[1] > b[1] THEN a[1] - b[1] ELSE b[1] - a[1])
  ELSE IRoot(1000000 * Sq(a, b), 0, 46341)
RECURSIVE MilliLen(_)
MilliLen(p) == IF Len(p) < 2 THEN 0 ELSE Milli(p[1], p[2]) + MilliLen(Tail(p))
\* r: an observed total, rounded to thousandths, of n distances summing to m
Close(r, m, n) == r >= m - 1 /\ r <= m + n + 1
=============================================================================
