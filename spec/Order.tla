------------------------------- MODULE Order -------------------------------
(* The swath orders.  What a sorted result must be, for any input.           *)
EXTENDS SwathSeq
Base(in, var) ==
  LET f == SortById([k \in DOMAIN in |-> Forward(in[k])])
      g == IF var % 2 = 1 THEN Rev(f) ELSE f
  IN IF (var \div 2) % 2 = 1 /\ g # <<>> THEN [g EXCEPT ![1] = Reversed(@)] ELSE g
\* positions (1..n) of the base sequence in the order they are visited
Iota(n) == [k \in 1..n |-> k]
\* out over every second swath, back over the ones left out
SnakePos(n) == [k \in 1..n |-> IF 2 * k - 1 <= n THEN 2 * k - 1 ELSE 2 * (n - k + 1)]
\* one block of m swaths from position a: from both ends inwards, the first
\* one taken at the near end when the block starts at an even offset
BlockPos(a, m, near) ==
  [k \in 1..m |-> LET j == IF near THEN k ELSE k + 1 IN
      IF j % 2 = 1 THEN (IF near THEN a + (j - 1) \div 2 ELSE a + (j - 1) \div 2 - 1)
      ELSE a + m - j \div 2]
SpiralPos(n, k0) ==
  LET k == IF k0 < 2 THEN 2 ELSE k0 IN
  [i \in 1..n |-> LET b == (i - 1) \div k
                      a == b * k + 1
                      m == IF a + k - 1 <= n THEN k ELSE n - a + 1
                  IN IF m < 2 THEN i ELSE BlockPos(a, m, (a - 1) % 2 = 0)[i - a + 1]]
CustomBad(n, ord) ==
  \/ Len(ord) # n
  \/ \E k \in DOMAIN ord : ord[k] >= n
  \/ \E j, k \in DOMAIN ord : j # k /\ ord[j] = ord[k]
Pos(e, n) ==
  CASE e.op = "boust" -> Iota(n)
    [] e.op = "snake" -> SnakePos(n)
    [] e.op = "spiral" -> SpiralPos(n, e.k)
    [] e.op = "custom" -> [k \in 1..n |-> e.ord[k] + 1]
Permute(s, p) == [k \in DOMAIN p |-> s[p[k]]]
Expected(e) ==
  LET in == AsSeq(e.in) IN Alternate(Permute(Base(in, e.var), Pos(e, Len(in))), 2)

Ids(s) == [k \in DOMAIN s |-> s[k].id]
DistinctIds(s) == \A a, b \in DOMAIN s : s[a].id = s[b].id => a = b
SameSwath(a, b) == a.id = b.id /\ a.t = b.t /\ EqSwath(a, b) /\ (a.p = b.p \/ a.p = Rev(b.p))
NothingLost(in, out) ==
  /\ Len(in) = Len(out)
  /\ \A k \in DOMAIN in :
       Cardinality({x \in DOMAIN out : SameSwath(in[k], out[x])})
         = Cardinality({x \in DOMAIN in : SameSwath(in[k], in[x])})
Alternates(out) == \A k \in 2..Len(out) : ~Travels(out[k], out[k - 1])
OVerdict(e) ==
  LET in == AsSeq(e.in) n == Len(in) IN
  IF e.op = "custom" /\ n > 0 /\ CustomBad(n, e.ord)
  THEN IF e.x # "" THEN <<>> ELSE <<"C06", "a wrong custom permutation was accepted">>
  ELSE IF e.x # "" THEN <<"*", "unexpected exception " \o e.x>>
  ELSE LET out == AsSeq(e.r.out) IN
    IF AsSeq(e.r.after) # in THEN <<"C05", "sorting changed the caller's swaths">>
    ELSE IF ~NothingLost(in, out) THEN <<"C05", "a swath was lost, duplicated or altered">>
    ELSE IF ~Alternates(out) THEN <<"C06", "neighbours in the result travel the same way">>
    ELSE IF DistinctIds(in)
    THEN LET want == Expected(e) IN
         IF Ids(out) # Ids(want) THEN <<"C06", "the sequence is not the order's pattern">>
         ELSE IF e.op = "custom" \/ out = want THEN <<>>
         ELSE <<"C06", "the starting corner is not the variant's">>
    ELSE <<>>
=============================================================================
