------------------------------ MODULE OrderGen ------------------------------
(* Inputs for the real orders: every size, variant and pattern parameter,    *)
(* with the swaths given in a random sequence and random directions.         *)
EXTENDS Order, Json
CONSTANTS MaxN, Reps
VARIABLES q
R(S) == RandomElement(S)
RECURSIVE Shuffle(_)
Shuffle(s) == IF Len(s) < 2 THEN s
  ELSE LET i == R(1..Len(s)) IN <<s[i]>> \o Shuffle(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))
\* swath with identifier i: parallel lines; kind 1 bends, kind 2 runs across
Geom(i, kind) ==
  CASE kind = 0 -> <<<<3 * i, 0>>, <<3 * i, 5 + i>>>>
    [] kind = 1 -> <<<<3 * i, i>>, <<3 * i, 5 + i>>, <<3 * i + 1, 5 + i>>>>
    [] kind = 2 -> <<<<0, -2 * i>>, <<7, -2 * i>>>>
One(i, id, kind, mixed) ==
  LET g == Geom(i, kind) IN
  [p |-> IF mixed /\ R(0..1) = 1 THEN Rev(g) ELSE g, w |-> 1 + (i % 3), id |-> id,
   t |-> R(0..1), d |-> IF R(0..3) = 0 THEN FALSE ELSE TRUE]
Input(n, dup) ==
  LET kind == R(0..2) mixed == R({TRUE, FALSE}) base == R({0, 0, 1, 7}) IN
  Shuffle([k \in 1..n |-> One(k, IF dup THEN base + k \div 2 ELSE base + k - 1, kind, mixed)])
RandPerm(n) == Shuffle([k \in 1..n |-> k - 1])
BadPerm(n) == LET p == RandPerm(n) c == R(0..3) IN
  CASE c = 0 -> p \o <<n>>
    [] c = 1 -> IF n > 1 THEN [p EXCEPT ![1] = p[2]] ELSE <<5>>
    [] c = 2 -> IF n > 0 THEN [p EXCEPT ![R(1..n)] = n + R(0..2)] ELSE <<>>
    [] OTHER -> IF n > 0 THEN Tail(p) ELSE <<0>>
Cases == {[op |-> o, n |-> n, var |-> v, k |-> 0, rep |-> r] :
            o \in {"boust", "snake", "custom", "badcustom"}, n \in 0..MaxN, v \in 0..3, r \in 1..Reps}
   \cup {[op |-> "spiral", n |-> n, var |-> v, k |-> k, rep |-> 1] :
            n \in 0..MaxN, v \in 0..3, k \in 0..(MaxN + 1)}
   \cup {[op |-> "spiral", n |-> n, var |-> 0, k |-> k, rep |-> 1] :
            n \in (MaxN + 1)..(3 * MaxN), k \in {0, 1, 3, 5, 8, MaxN, MaxN + 1, 2 * MaxN, 2 * MaxN + 1, 3 * MaxN}}
   \cup {[op |-> o, n |-> n, var |-> 0, k |-> 2, rep |-> 0] : o \in {"boust", "snake", "custom"}, n \in {30, 37, 50, 64}}
   \cup {[op |-> o, n |-> n, var |-> 5, k |-> 3, rep |-> r] :
            o \in {"boust", "snake", "custom", "spiral"}, n \in {0, 1, 4, 7}, r \in 1..Reps}
   \cup {[op |-> o, n |-> n, var |-> 0, k |-> 2, rep |-> 0] :
            o \in {"boust", "snake", "custom", "spiral"}, n \in 13..24}
Make(c) ==
  LET in == Input(c.n, c.rep % 4 = 3) IN
  CASE c.op = "custom" -> [op |-> "custom", in |-> in, sc |-> R({1, 8, 64}), var |-> c.var, ord |-> RandPerm(c.n), set |-> R({TRUE, FALSE})]
    [] c.op = "badcustom" -> [op |-> "custom", in |-> in, sc |-> R({1, 8, 64}), var |-> c.var, ord |-> BadPerm(c.n), set |-> R({TRUE, FALSE})]
    [] c.op = "spiral" -> [op |-> "spiral", in |-> in, sc |-> R({1, 8, 64}), var |-> c.var, k |-> c.k, set |-> R({TRUE, FALSE})]
    [] OTHER -> [op |-> c.op, in |-> in, sc |-> R({1, 8, 64}), var |-> c.var]
Init == \E c \in Cases : q = Make(c)
Next == FALSE /\ UNCHANGED q
Spec == Init /\ [][Next]_q
Emit == PrintT(ToJson([ops |-> <<q>>]))
=============================================================================
