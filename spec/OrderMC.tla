------------------------------ MODULE OrderMC ------------------------------
(* The implementation's permutations, step by step, against the patterns;    *)
(* and the inputs the real orders are run on.                                *)
EXTENDS Order, Json
CONSTANTS MaxN, Reps
VARIABLES n, k, seq
\* the code: rotate, reverse on a growing part of the sequence (1-based here)
Rotate(s, a, m) == \* std::rotate(begin+a, begin+m, end), 0-based a <= m
  SubSeq(s, 1, a) \o SubSeq(s, m + 1, Len(s)) \o SubSeq(s, a + 1, m)
RotateTo(s, a, m, z) == \* std::rotate(begin+a, begin+m, begin+z)
  SubSeq(s, 1, a) \o SubSeq(s, m + 1, z) \o SubSeq(s, a + 1, m) \o SubSeq(s, z + 1, Len(s))
RevFrom(s, a) == SubSeq(s, 1, a) \o Rev(SubSeq(s, a + 1, Len(s)))
RECURSIVE SnakeLoop(_, _)
SnakeLoop(s, i) == IF i < (Len(s) - 1) \div 2 + 1 THEN SnakeLoop(Rotate(s, i, i + 1), i + 1)
                   ELSE LET r == RevFrom(s, i + 1)
                        IN IF Len(s) % 2 = 1 THEN Rotate(r, i, i + 1) ELSE r
SnakeCode(s) == IF Len(s) < 2 THEN s ELSE SnakeLoop(s, 1)
RECURSIVE SpiralBlock(_, _, _, _)
SpiralBlock(s, off, size, j) ==
  IF j < size THEN SpiralBlock(RotateTo(s, off + j, off + size - 1, off + size), off, size, j + 2)
  ELSE s
RECURSIVE SpiralLoop(_, _, _)
SpiralLoop(s, sz, i) ==
  IF i < Len(s) \div sz THEN SpiralLoop(SpiralBlock(s, i * sz, sz, (i * sz + 1) % 2), sz, i + 1)
  ELSE LET left == Len(s) - (Len(s) \div sz) * sz
       IN IF left > 1 THEN SpiralBlock(s, i * sz, left, (i * sz + 1) % 2) ELSE s
SpiralCode(s, sz) == SpiralLoop(s, IF sz < 2 THEN 2 ELSE sz, 0)
Init == n \in 0..MaxN /\ k \in 0..(MaxN + 1) /\ seq = Iota(n)
Next == FALSE /\ UNCHANGED <<n, k, seq>>
Spec == Init /\ [][Next]_<<n, k, seq>>
SnakeRight == SnakeCode(seq) = SnakePos(n)
SpiralRight == SpiralCode(seq, k) = SpiralPos(n, k)
IsPerm(p) == {p[i] : i \in DOMAIN p} = 1..n /\ Len(p) = n
Perms == IsPerm(SnakePos(n)) /\ IsPerm(SpiralPos(n, k))
\* the snake never jumps more than two swaths
SnakeNear == \A i \in 1..(n - 1) : Abs(SnakePos(n)[i] - SnakePos(n)[i + 1]) <= 2
\* a spiral block is contiguous: its swaths are visited together
BlockKept == \A i \in 1..n : LET z == IF k < 2 THEN 2 ELSE k IN
               (SpiralPos(n, k)[i] - 1) \div z = (i - 1) \div z
=============================================================================
