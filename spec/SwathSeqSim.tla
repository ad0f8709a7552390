---------------------------- MODULE SwathSeqSim ----------------------------
EXTENDS SwathSeq, Json
CONSTANTS Depth,
  Cap  \* swaths in a collection
VARIABLES S, hist
\* refers to a variable so that TLC draws anew every time
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)
RECURSIVE Walk(_, _, _)
Walk(p, n, h) == IF n = 0 THEN <<p>>
  ELSE LET k == R(1..4) * (IF R(0..1) = 0 THEN 1 ELSE -1)
       IN <<p>> \o Walk(IF h THEN <<p[1] + k, p[2]>> ELSE <<p[1], p[2] + k>>, n - 1, ~h)
Line == Walk(<<R(-5..5), R(-5..5)>>, R(1..2), R({TRUE, FALSE}))
Sw(i) == [p |-> Line, w |-> R(1..5), id |-> i, t |-> R(0..1), d |-> R({TRUE, FALSE})]
Names == <<"push", "push", "emplace", "emplaceLine", "appendLine", "appendLine", "appendLines", "appendSeq", "clone",
  "make", "sized", "reverse", "sort", "sort", "alt", "moveTo", "set", "setX", "setBack", "at", "back", "all", "all", "all", "all",
  "gPush", "gEmplace", "gPush", "gReverse", "gClone", "gMake", "gSet", "gSwathSet", "gSwath", "gSwath", "gAt", "gAll", "gAll", "gFlatten", "gKeep", "gBack", "gMove", "gMoveX", "gTurn", "gTurn", "gAltLast", "gSortAll", "gLast", "gX", "gList", "gSized">>
\* many swaths with identifiers all different
Lots(n) == LET r == R(1..996) q == R(0..996) IN [k \in 1..n |-> Sw((k * r + q) % 997)]
Few == <<"make", "make", "sort", "sort", "sort", "alt", "all", "all", "all", "reverse", "appendSeq", "appendLines", "gPush", "gPush", "gAll", "gAll", "gSortAll", "gSwath", "gFlatten", "gTurn", "gReverse">>
Pick == LET o == IF Cap > 10 /\ R(1..4) > 1 THEN Few[R(1..Len(Few))] ELSE Names[R(1..Len(Names))] v == R(0..2) u == R(0..2) IN
  CASE o \in {"push", "emplace", "setBack"} -> [op |-> o, v |-> v, s |-> Sw(R(0..40))]
    [] o = "emplaceLine" -> [op |-> o, v |-> v, p |-> Line, w |-> R(0..5), id |-> R(0..40), t |-> R(0..1)]
    [] o = "appendLine" -> [op |-> o, v |-> v, p |-> Line, w |-> R(0..5), t |-> R(0..1)]
    [] o = "appendLines" -> [op |-> o, v |-> v, ps |-> [k \in 1..R(0..3) |-> Line], w |-> R(0..5), t |-> R(0..1)]
    [] o \in {"appendSeq", "clone", "gMake"} -> [op |-> o, v |-> v, u |-> u]
    [] o = "make" -> [op |-> o, v |-> v, ss |-> IF Cap > 10 THEN Lots(R(0..Cap)) ELSE [k \in 1..R(0..4) |-> Sw(R(0..40))]]
    [] o = "sized" -> [op |-> o, v |-> v, i |-> R(0..3)]
    [] o = "moveTo" -> [op |-> o, v |-> v, d |-> <<R(-3..3), R(-3..3)>>]
    [] o \in {"set", "setX"} -> [op |-> o, v |-> v, i |-> R(0..6), s |-> Sw(R(0..40))]
    [] o = "at" -> [op |-> o, v |-> v, i |-> R(0..(Cap - 2))]
    [] o \in {"reverse", "sort", "alt", "back", "all", "gPush", "gEmplace", "gFlatten"} -> [op |-> o, v |-> v]
    [] o \in {"gMove", "gMoveX"} -> [op |-> o, i |-> R(0..3), d |-> <<R(-3..3), R(-3..3)>>]
    [] o = "gTurn" -> [op |-> o, i |-> R(0..Cap)]
    [] o = "gX" -> [op |-> o, i |-> R(0..3)]
    [] o = "gList" -> [op |-> o, v |-> v, u |-> u]
    [] o = "gSized" -> [op |-> o, i |-> R(0..2)]
    [] o = "gSet" -> [op |-> o, v |-> v, i |-> R(0..3)]
    [] o = "gSwathSet" -> [op |-> o, i |-> R(0..10), s |-> Sw(R(0..40))]
    [] o = "gSwath" -> [op |-> o, i |-> R(0..(Cap + 2))]
    [] o = "gAt" -> [op |-> o, i |-> R(0..4)]
    [] OTHER -> [op |-> o]
Small(T) == Len(T.v[0]) <= Cap /\ Len(T.v[1]) <= Cap /\ Len(T.v[2]) <= Cap /\ Len(T.c) <= 5
Init == S = Q0 /\ hist \in {<<[op |-> "scale", n |-> n]>> : n \in {1, 8, 64}}
Next == /\ Len(hist) < Depth
        /\ \E o \in {Pick} :
             IF Allowed(S, o) /\ Small(QDo(S, o))
             THEN S' = QDo(S, o) /\ hist' = Append(hist, o)
             ELSE S' = [S EXCEPT !.v[0] = <<>>] /\ hist' = Append(hist, [op |-> "sized", v |-> 0, i |-> 0])
Spec == Init /\ [][Next]_<<S, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
