------------------------------- MODULE TurnMC -------------------------------
(* Design of turn generation with a cache (C11, C12): a request is moved so   *)
(* that the line from start to end is the x axis and the turn starts to the   *)
(* left, the canonical turn is looked up under a key or made, and the answer  *)
(* is moved back.  Angles are eighths of a full turn.  Key lists what the key *)
(* of the cache is made of; leaving something out is a fault.                 *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Key
Full == 8
Mod(a) == a % Full
Settings == [curv : {1, 2}, dcurv : {1, 2}, disc : {1, 2}, vel : {1, 2}]
VARIABLES s, on, cache
vars == <<s, on, cache>>
\* requests: line of length d along angle t, poses a and b
Requests == [d : {1}, t : {0, 3}, a : {0, 1, 3, 4, 6}, b : {1, 6}] \cup [d : {0}, t : {0}, a : {0, 2, 5}, b : {1}]
Normal(q) == LET a == Mod(q.a - q.t) b == Mod(q.b - q.t) IN
  IF a > Full \div 2 THEN [d |-> q.d, a |-> Mod(-a), b |-> Mod(-b), inv |-> TRUE]
  ELSE [d |-> q.d, a |-> a, b |-> b, inv |-> FALSE]
\* a canonical turn spells out everything it depends on, and the headings at both ends
Canon(z, n) == [z |-> z, d |-> n.d, a |-> n.a, b |-> n.b, y |-> 1]
Place(c, n, t) == [z |-> c.z, d |-> c.d, from |-> Mod((IF n.inv THEN -c.a ELSE c.a) + t),
                   to |-> Mod((IF n.inv THEN -c.b ELSE c.b) + t), y |-> IF n.inv THEN -c.y ELSE c.y]
Entry(z, n) == [f \in Key \cup {"d", "a", "b"} |-> CASE f = "d" -> n.d [] f = "a" -> n.a [] f = "b" -> n.b [] OTHER -> z[f]]
Answer(z, use, c, q) == LET n == Normal(q) k == Entry(z, n) IN
  Place(IF use /\ k \in DOMAIN c THEN c[k] ELSE Canon(z, n), n, q.t)
Init == s \in Settings /\ on = TRUE /\ cache = <<>>
Ask(q) == /\ LET n == Normal(q) k == Entry(s, n) IN cache' = IF on THEN k :> Canon(s, n) ELSE cache
          /\ UNCHANGED <<s, on>>
\* one remembered turn is enough to show a wrong answer; it never changes once made
Set == \E z \in Settings : s' = z /\ UNCHANGED <<on, cache>>
Switch == on' = ~on /\ UNCHANGED <<s, cache>>
Next == (\E q \in Requests : cache = <<>> /\ Ask(q)) \/ Set \/ Switch
Spec == Init /\ [][Next]_vars
\* every answer is the one a new generator gives, and joins the poses asked for
Fresh == \A q \in Requests : Answer(s, on, cache, q) = Answer(s, FALSE, <<>>, q)
Joins == \A q \in Requests : LET r == Answer(s, on, cache, q) IN r.from = q.a /\ r.to = q.b /\ r.d = q.d
\* mirrored requests have mirrored turns
Mirrors == \A q \in Requests : q.t = 0 /\ q.a \notin {0, 4} =>
  LET r == Answer(s, on, cache, q) m == Answer(s, on, cache, [q EXCEPT !.a = Mod(-@), !.b = Mod(-@)]) IN
  r.y = -m.y /\ r.z = m.z
=============================================================================
