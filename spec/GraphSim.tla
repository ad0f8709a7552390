------------------------------ MODULE GraphSim ------------------------------
(* Random long histories of edits and queries on larger graphs, with node    *)
(* numbers that are not contiguous, sinks and isolated numbers.              *)
EXTENDS Graph, Json
CONSTANTS Depth, Focus, Big
VARIABLES hist
\* refers to a variable so that TLC draws anew every time
R(S) == IF hist = <<>> THEN RandomElement(S) ELSE RandomElement(S)
EditOps == <<"addD", "addD", "addD", "addD", "addU", "addU", "remD", "remD", "remU">>
QueryOps == IF Focus = "C01"
  THEN <<"cost", "cost", "path", "path", "costs", "paths", "compute", "copy">>
  ELSE <<"all", "all", "ecost", "succ", "edges", "counts", "copy", "cost">>
Spaces == << {0, 1, 2, 3}, {0, 1, 2, 3, 4, 5}, {1, 2, 3, 4}, {0, 2, 5, 7}, {0, 1, 4, 6, 9}, {0, 1} >>
Wide == << 0..9, {0, 1, 2, 4, 5, 6, 7, 9, 11, 13, 14, 20}, 3..15 >>
All == IF Big THEN Wide ELSE Spaces
Cost == IF R(0..3) = 0 THEN R({0, 10, 11, 99, 5000, 1000003, 40000000}) ELSE R(0..9)
OpFrom(names, S) ==
  LET o == names[R(1..Len(names))] i == R(S) j == R(S) IN
  CASE o \in {"addD", "addU"} -> [op |-> o, i |-> i, j |-> j, c |-> Cost]
    [] o \in {"costs", "paths", "edges", "counts", "compute", "copy"} -> [op |-> o]
    [] o = "succ" -> [op |-> o, i |-> i]
    [] OTHER -> [op |-> o, i |-> i, j |-> j]
VARIABLE sp
Init == hist = <<>> /\ sp \in 1..Len(All)
Next ==
  /\ Len(hist) < Depth
  /\ sp' = sp
  /\ \E bit \in {R(0..9)} :
       hist' = Append(hist, OpFrom(IF bit < (IF Big THEN 7 ELSE 5) THEN EditOps ELSE QueryOps, All[sp]))
Spec == Init /\ [][Next]_<<hist, sp>>
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
