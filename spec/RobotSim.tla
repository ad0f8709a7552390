------------------------------ MODULE RobotSim ------------------------------
EXTENDS Robot, Json
CONSTANTS Depth
VARIABLES hist
\* refers to a variable so that TLC draws anew every time
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)
Names == <<"new", "make1", "make2", "make2", "make4", "copy", "assign", "move", "name", "width", "cov", "cruise", "turn",
           "radius", "radius", "curv", "curv", "diff", "get", "get", "get", "get", "get">>
Pick == LET o == Names[R(1..Len(Names))] a == R(0..2) IN
  CASE o = "make1" -> [op |-> o, a |-> a, w |-> R(-2..30)]
    [] o = "make2" -> [op |-> o, a |-> a, w |-> R(-2..30), c |-> R(-2..30)]
    [] o = "make4" -> [op |-> o, a |-> a, w |-> R(0..30), c |-> R(0..30), k |-> R(1..30), dk |-> R(1..30)]
    [] o \in {"copy", "assign", "move"} -> [op |-> o, a |-> a, b |-> R(0..2)]
    [] o = "name" -> [op |-> o, a |-> a, s |-> R({"", "A", "robot 7"})]
    [] o \in {"width", "cov", "cruise", "turn"} -> [op |-> o, a |-> a, v |-> R(0..80)]
    [] o \in {"radius", "curv", "diff"} -> [op |-> o, a |-> a, v |-> R(-80..80)]
    [] OTHER -> [op |-> o, a |-> a]
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E o \in {Pick} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
