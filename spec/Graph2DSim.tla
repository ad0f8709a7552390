----------------------------- MODULE Graph2DSim -----------------------------
EXTENDS Graph2D, Json
CONSTANTS Depth
VARIABLES s, hist
\* refers to a variable so that TLC draws anew every time
R(S) == IF hist = <<>> THEN RandomElement(S) ELSE RandomElement(S)
Pts == << <<0, 0>>, <<3, 4>>, <<3, 0>>, <<-1, 0>>, <<0, -2>>, <<5, 5>>, <<1, 1>>, <<1, 2>>, <<-7, 5>>, <<0, 40>> >>
Names == <<"geoU", "geoU", "geoD", "addU", "addD", "addD", "remD", "remU", "auxD", "auxU", "auxD", "auxU",
           "borD", "borU", "borU", "cost", "path", "icost", "all", "ecost", "index", "node", "nodes", "copy">>
FromAux(a) == IF s.aux.pts # <<>> /\ R(1..4) > 1 THEN s.aux.pts[R(1..Len(s.aux.pts))] ELSE a
\* what goes well with the operation before: another cost for the way back, and
\* a look at costs just borrowed
After == LET l == hist[Len(hist)] IN
  CASE l.op = "auxD" /\ R(1..2) = 1 -> [op |-> "auxD", a |-> l.b, b |-> l.a, c |-> R(0..20)]
    [] l.op \in {"borU", "borD"} /\ R(1..4) > 1 -> IF R(1..2) = 1 THEN [op |-> "ecost", a |-> l.b, b |-> l.a] ELSE [op |-> "ecost", a |-> l.a, b |-> l.b]
    [] OTHER -> [op |-> ""]
Draw == LET o == Names[R(1..Len(Names))] a == Pts[R(1..Len(Pts))] b == Pts[R(1..Len(Pts))] IN
        CASE o \in {"addU", "addD", "auxU", "auxD"} -> [op |-> o, a |-> a, b |-> b, c |-> R(0..20)]
          [] o \in {"nodes", "copy"} -> [op |-> o]
          [] o = "node" -> [op |-> o, i |-> R(0..6)]
          [] o \in {"borD", "borU"} -> [op |-> o, a |-> FromAux(a), b |-> FromAux(b)]
          [] OTHER -> [op |-> o, a |-> a, b |-> b]
Pick == IF hist = <<>> THEN Draw ELSE LET x == After IN IF x.op = "" THEN Draw ELSE x
Init == s = S0 /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E o \in {Pick} :
             IF Sensible(s, o) THEN s' = Do(s, o) /\ hist' = Append(hist, o)
             ELSE s' = s /\ hist' = Append(hist, [op |-> "nodes"])
Spec == Init /\ [][Next]_<<s, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
