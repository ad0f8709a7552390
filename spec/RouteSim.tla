------------------------------ MODULE RouteSim ------------------------------
EXTENDS Route, Json
CONSTANTS Depth
VARIABLES s, hist
\* refers to a variable so that TLC draws anew every time
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)
Pts == << <<0, 0>>, <<0, 4>>, <<3, 0>>, <<3, 4>>, <<6, 0>>, <<6, -4>>, <<-5, 4>>, <<-5, -3>>, <<9, 9>> >>
P == Pts[R(1..Len(Pts))]
Ps(n) == [k \in 1..n |-> P]
Sw == LET a == R(1..8) b == R({x \in 1..9 : x # a}) IN
      [p |-> IF R(0..3) = 0 THEN <<Pts[a], <<R(-9..9), R(-9..9)>>, Pts[b]>> ELSE <<Pts[a], Pts[b]>>,
       w |-> R(1..5), id |-> R(0..9), t |-> R(0..1), d |-> R({TRUE, FALSE})]
Sws(n) == [k \in 1..n |-> Sw]
Names == <<"edge", "edge", "edge", "swaths", "conswaths", "swath", "swath", "swathG", "swathG", "swathG", "con", "conP", "conM", "conV",
           "setCon", "setSwaths", "growCon", "growLastCon", "growSwaths", "growLastSwaths", "flip", "clone", "new", "get", "get", "get", "get", "get">>
Pick == LET o == Names[R(1..Len(Names))] a == IF R(0..3) = 0 THEN 1 ELSE 0 IN
  CASE o = "edge" -> LET x == R(1..8) y == R({z \in 1..8 : z # x}) IN [op |-> o, p |-> Pts[x], q |-> Pts[y], c |-> R(0..9)]
    [] o = "swaths" -> [op |-> o, a |-> a, ss |-> Sws(R(0..3))]
    [] o = "conswaths" -> [op |-> o, a |-> a, ps |-> Ps(R(0..3)), ss |-> Sws(R(0..2))]
    [] o \in {"swath", "swathG", "growLastSwaths"} -> [op |-> o, a |-> a, s |-> Sw]
    [] o \in {"conP", "growLastCon"} -> [op |-> o, a |-> a, p |-> P]
    [] o \in {"conM", "conV"} -> [op |-> o, a |-> a, ps |-> Ps(R(0..3))]
    [] o = "setCon" -> [op |-> o, a |-> a, i |-> R(0..4), ps |-> Ps(R(0..3))]
    [] o = "setSwaths" -> [op |-> o, a |-> a, i |-> R(0..4), ss |-> Sws(R(0..3))]
    [] o = "growCon" -> [op |-> o, a |-> a, i |-> R(0..4), p |-> P]
    [] o = "growSwaths" -> [op |-> o, a |-> a, i |-> R(0..4), s |-> Sw]
    [] o = "flip" -> [op |-> o, a |-> a, i |-> R(0..4)]
    [] o = "clone" -> [op |-> o, a |-> a, b |-> R(0..1)]
    [] o = "new" -> IF R(0..3) = 0 THEN [op |-> o, a |-> a] ELSE [op |-> "get", a |-> a]
    [] OTHER -> [op |-> o, a |-> a]
Init == s = R0 /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in {Pick} :
             IF RAllowed(s, o) /\ (o.op = "clone" => o.a # o.b) THEN s' = RDo(s, o) /\ hist' = Append(hist, o)
             ELSE s' = s /\ hist' = Append(hist, [op |-> "get", a |-> 0])
Spec == Init /\ [][Next]_<<s, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist \o <<[op |-> "get", a |-> 0], [op |-> "get", a |-> 1]>>]))
=============================================================================
