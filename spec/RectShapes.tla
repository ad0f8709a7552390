----------------------------- MODULE RectShapes -----------------------------
(* Random rectilinear fields within the 30 x 30 grid.                         *)
EXTENDS RegionShapes
Ell(x, y, w, h, a, b) == << <<x, y>>, <<x + w, y>>, <<x + w, y + b>>, <<x + a, y + b>>, <<x + a, y + h>>, <<x, y + h>> >>
You(x, y, w, h, a, b) == << <<x, y>>, <<x + w, y>>, <<x + w, y + h>>, <<x + a + 1, y + h>>, <<x + a + 1, y + b>>, <<x + a, y + b>>, <<x + a, y + h>>, <<x, y + h>> >>
\* a cell in the columns x .. x + 11, from a tuple of random numbers
RectCell(k, x, y, w, h, a, b) ==
  CASE k = 1 -> <<Box(x, y, w, h)>>
    [] k = 2 -> <<Ell(x, y, w, h, a, b)>>
    [] k = 3 -> <<You(x, y, w, h, a, b)>>
    [] k = 4 -> <<Box(x, y, w, h), Box(x + 1, y + 1, a, b)>>
    [] OTHER -> <<Ell(x, y, w, h, a + 1, b + 1), Box(x + 1, y + 1, a - 1, b)>>
Cell(x0) == Finish(RectCell(R(1..5), x0 + R(0..2), R(0..6), R(6..10), R(8..20), R(2..4), R(2..6)))
Fields(k) == IF k = 1 THEN <<Cell(0), Cell(15)>> ELSE <<Cell(R({0, 3, 14}))>>
=============================================================================
