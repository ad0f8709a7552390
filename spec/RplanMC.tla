------------------------------- MODULE RplanMC -------------------------------
(* Design of route planning (C15): the swaths become a graph of their ends, a *)
(* middle node each and a deposit; a solver visits every node once along its  *)
(* links; the swaths are read off the order of the nodes.  Checked: there is  *)
(* such an order, and every one of them drives each swath once, and forward   *)
(* unless swaths may be reversed.  Reading does not survive directed swaths   *)
(* that start or end at the same point (a known finding).                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Redirect, Shared
VARIABLES sw
Points == IF Shared THEN 1..3 ELSE 1..(2 * N)
Init == IF Shared THEN sw \in [1..N -> {<<a, b>> \in Points \X Points : a # b}] /\ \A i, j \in 1..N : i # j => {sw[i][1], sw[i][2]} # {sw[j][1], sw[j][2]}
     
  \* names do not matter
  ELSE sw = [i \in 1..N |-> <<2 * i - 1, 2 * i>>]
Next == FALSE /\ UNCHANGED sw
Spec == Init /\ [][Next]_sw
Mid(i) == <<"mid", i>>
End(p) == <<"pt", p>>
Dep == <<"dep", 0>>
Ends == UNION {{End(sw[i][1]), End(sw[i][2])} : i \in 1..N}
Nodes == Ends \cup {Mid(i) : i \in 1..N} \cup {Dep}
Both(S) == S \cup {<<l[2], l[1]>> : l \in S}
Links == LET m == UNION {{<<End(sw[i][1]), Mid(i)>>, <<Mid(i), End(sw[i][2])>>} : i \in 1..N}
             c == {<<End(sw[i][2]), End(sw[j][1])>> : i, j \in 1..N}
             all == {l \in Ends \X Ends : l[1] # l[2]}
             d == Both({<<e, Dep>> : e \in Ends})
         IN d \cup IF Redirect THEN Both(m) \cup all ELSE m \cup {l \in c : l[1] # l[2]}
RECURSIVE Tours(_, _)
Tours(path, rest) ==
  IF rest = {} THEN (IF <<path[Len(path)], Dep>> \in Links THEN {path} ELSE {})
  ELSE UNION {IF <<path[Len(path)], x>> \in Links THEN Tours(Append(path, x), rest \ {x}) ELSE {} : x \in rest}
AllTours == Tours(<<Dep>>, Nodes \ {Dep})
\* the code: any two nodes with one in between that are the ends of a swath
ReadAt(v, i) == {<<j, 0>> : j \in {j \in 1..N : v[i] = End(sw[j][1]) /\ v[i + 2] = End(sw[j][2])}}
           \cup {<<j, 1>> : j \in {j \in 1..N : v[i] = End(sw[j][2]) /\ v[i + 2] = End(sw[j][1])}}
\* the first swath that fits
ReadOne(v, i) == LET s == ReadAt(v, i) IN IF s = {} THEN <<>> ELSE <<CHOOSE x \in s : \A y \in s : x[1] <= y[1]>>
RECURSIVE Read(_, _)
Read(v, i) == IF i + 2 > Len(v) THEN <<>> ELSE ReadOne(v, i) \o Read(v, i + 1)
Once(r) == Len(r) = N /\ {r[i][1] : i \in 1..Len(r)} = 1..N /\ (~Redirect => \A i \in 1..N : r[i][2] = 0)
Solvable == AllTours # {}
Right == \A v \in AllTours : Once(Read(Tail(v), 1))
\* every order and direction can be driven, so the cheapest one is found
Complete == ~Shared => LET rs == {Read(Tail(v), 1) : v \in AllTours} IN
  Cardinality(rs) = (CASE N = 1 -> 1 [] N = 2 -> 2 [] OTHER -> 6) * (IF Redirect THEN 2 ^ N ELSE 1)
=============================================================================
