------------------------------ MODULE SwathSim ------------------------------
EXTENDS Swath, Json
CONSTANTS Depth
VARIABLES hist
\* refers to a variable so that TLC draws anew every time
R(S) == IF hist = <<>> THEN RandomElement(S) ELSE RandomElement(S)
RECURSIVE Walk(_, _, _)
Walk(p, n, h) == IF n = 0 THEN <<p>>
  ELSE LET k == R(1..4) * (IF R(0..1) = 0 THEN 1 ELSE -1)
       IN <<p>> \o Walk(IF h THEN <<p[1] + k, p[2]>> ELSE <<p[1], p[2] + k>>, n - 1, ~h)
Line == Walk(<<R(-5..5), R(-5..5)>>, R(1..3), R({TRUE, FALSE}))
Names == <<"new", "new", "new", "clone", "clone", "take", "move", "reverse", "reverse", "same", "opp", "setW", "setId",
           "setType", "setDir", "setPath", "moveTo", "get", "get", "get", "get", "cmp", "cmp", "cmp", "inside", "inside", "newWidth", "newLine", "newEmpty">>
Pick == LET o == Names[R(1..Len(Names))] a == R(0..3) b == R(0..3) IN
  CASE o = "new" -> [op |-> o, a |-> a, p |-> Line, w |-> R(-1..6), id |-> R(0..3), t |-> R(0..1)]
    [] o = "newWidth" -> [op |-> o, a |-> a, w |-> R(-1..6)]
    [] o = "newLine" -> [op |-> o, a |-> a, p |-> Line]
    [] o = "newEmpty" -> [op |-> o, a |-> a]
    [] o = "setW" -> [op |-> o, a |-> a, w |-> R(-1..6)]
    [] o = "setId" -> [op |-> o, a |-> a, id |-> R(0..3)]
    [] o = "setType" -> [op |-> o, a |-> a, t |-> R(0..1)]
    [] o = "setDir" -> [op |-> o, a |-> a, d |-> R({TRUE, FALSE})]
    [] o = "setPath" -> [op |-> o, a |-> a, p |-> Line]
    [] o = "moveTo" -> [op |-> o, a |-> a, v |-> <<R(-3..3), R(-3..3)>>]
    [] o = "inside" -> LET x == R(-4..4) y == R(-4..4) x2 == x + R(1..5) IN
         [op |-> o, a |-> a, boxes |-> IF R(0..1) = 0 THEN <<<<x, y, x2, y + R(1..6)>>>>
            ELSE <<<<x, y, x2, y + R(1..6)>>, <<x2 + R(1..2), y - R(0..2), x2 + R(3..6), y + R(1..6)>>>>]
    [] o \in {"reverse", "get"} -> [op |-> o, a |-> a]
    [] o = "move" /\ a = b -> [op |-> "get", a |-> a]
    [] OTHER -> [op |-> o, a |-> a, b |-> b]
Init == hist = <<>>
\* two swaths with the same ends but one with a detour
Twins == LET p == Line a == R(0..3) w == R(1..3) k == R(-1..2)
             q == <<p[1], <<p[1][1], p[1][2] + k>>>> \o p
         IN <<[op |-> "new", a |-> a, p |-> p, w |-> w, id |-> R(0..1), t |-> R(0..1)],
              [op |-> "new", a |-> (a + 1) % 4, p |-> IF R(0..2) = 0 THEN Rev(q) ELSE q, w |-> IF R(0..3) = 0 THEN w + 1 ELSE w,
               id |-> R(0..1), t |-> R(0..1)],
              [op |-> "setDir", a |-> a, d |-> R({TRUE, FALSE})],
              [op |-> "cmp", a |-> a, b |-> (a + 1) % 4]>>
Next == Len(hist) < Depth /\
  IF R(0..9) = 0 THEN \E t \in {Twins} : hist' = hist \o t ELSE \E o \in {Pick} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) >= Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
