----------------------------- MODULE Graph2DMC -----------------------------
(* All short histories on few points: the numbering is a bijection that only *)
(* ever grows, and every edge joins numbered points.                         *)
EXTENDS Graph2D, Json
CONSTANTS Points, MaxLen
ThePoints == {<<0, 0>>, <<3, 4>>, <<3, 0>>}
VARIABLES s, hist
Ops == {[op |-> o, a |-> a, b |-> b] : o \in {"geoD", "geoU", "remD", "remU"},
                                       a \in Points, b \in Points}
       \cup {[op |-> "addD", a |-> a, b |-> b, c |-> 7] : a \in Points, b \in Points}
       \cup {[op |-> "auxU", a |-> a, b |-> b, c |-> 2] : a \in Points, b \in Points}
       \cup {[op |-> "borU", a |-> a, b |-> b] : a \in Points, b \in Points}
Init == s = S0 /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E o \in Ops :
             /\ o.a # o.b /\ Sensible(s, o)
             /\ s' = Do(s, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<s, hist>>
view == s
Bijection == \A p \in {s.main, s.aux} :
               /\ NoDup(p.pts)
               /\ p.g.nodes = {k - 1 : k \in DOMAIN p.pts}
Stable == [][\A p \in {"main", "aux"} :
               Len(s[p].pts) <= Len(s'[p].pts)
               /\ \A k \in DOMAIN s[p].pts : s'[p].pts[k] = s[p].pts[k]]_<<s, hist>>
ToSeq(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE
                 LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)
PP == ToSeq(Points \X Points)
On(o) == [k \in DOMAIN PP |-> [op |-> o, a |-> PP[k][1], b |-> PP[k][2]]]
Probe == On("cost") \o On("path") \o On("ecost") \o On("icost") \o
         [k \in 1..Len(ToSeq(Points)) |-> [op |-> "index", a |-> ToSeq(Points)[k]]] \o
         [k \in 1..Cardinality(Points) |-> [op |-> "node", i |-> k - 1]] \o
         <<[op |-> "nodes"]>>
Emit == PrintT(ToJson([ops |-> hist' \o Probe]))
=============================================================================
