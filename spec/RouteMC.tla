------------------------------ MODULE RouteMC ------------------------------
(* Every short building history: groups and connections stay paired, and the *)
(* points travelled are the points added, in the order they were added.      *)
EXTENDS Route, Json
CONSTANTS MaxLen
SA == [p |-> <<<<0, 0>>, <<0, 2>>>>, w |-> 2, id |-> 5, t |-> 1, d |-> TRUE]
SB == [p |-> <<<<1, 3>>, <<1, 0>>>>, w |-> 3, id |-> 4, t |-> 0, d |-> FALSE]
VARIABLES s, hist, added
Adds ==
  {[op |-> "swaths", a |-> 0, ss |-> ss] : ss \in {<<>>, <<SA, SB>>}}
  \cup {[op |-> "conswaths", a |-> 0, ps |-> ps, ss |-> ss] : ps \in {<<>>, <<<<5, 5>>>>}, ss \in {<<>>, <<SB>>}}
  \cup {[op |-> "swath", a |-> 0, s |-> SA]}
  \cup {[op |-> "swathG", a |-> 0, s |-> SB]}
  \cup {[op |-> "con", a |-> 0], [op |-> "conP", a |-> 0, p |-> <<4, 4>>]}
  \cup {[op |-> o, a |-> 0, ps |-> ps] : o \in {"conM", "conV"}, ps \in {<<>>, <<<<4, 1>>, <<2, 2>>>>}}
PtsOf(st, o) ==
  CASE o.op = "swaths" -> SwathsPts(o.ss)
    [] o.op = "conswaths" -> o.ps \o SwathsPts(o.ss)
    [] o.op = "swath" -> o.s.p
    [] o.op = "swathG" -> IF RRefused(st, o) THEN <<>>
                          ELSE (IF IsEmptyR(st.r[0]) THEN <<>> ELSE SomeWay(st, st.r[0], o.s)) \o o.s.p
    [] o.op = "conP" -> <<o.p>>
    [] o.op \in {"conM", "conV"} -> o.ps
    [] OTHER -> <<>>
Edges0 == << [op |-> "edge", p |-> <<0, 2>>, q |-> <<1, 3>>, c |-> 3],
             [op |-> "edge", p |-> <<1, 0>>, q |-> <<2, 2>>, c |-> 1],
             [op |-> "edge", p |-> <<2, 2>>, q |-> <<1, 3>>, c |-> 1],
             [op |-> "edge", p |-> <<4, 4>>, q |-> <<9, 9>>, c |-> 1] >>
RECURSIVE Play(_, _)
Play(st, h) == IF h = <<>> THEN st ELSE Play(RDo(st, h[1]), Tail(h))
Init == s = Play(R0, Edges0) /\ hist = <<>> /\ added = <<>>
Next == \E o \in Adds :
  /\ Len(hist) < MaxLen /\ RAllowed(s, o)
  /\ s' = RDo(s, o) /\ hist' = Append(hist, o) /\ added' = added \o PtsOf(s, o)
Spec == Init /\ [][Next]_<<s, hist, added>>
view == s
PairedInv == Paired(s.r[0])
TripInv == TripOf(s.r[0]) = added
Probe == <<[op |-> "get", a |-> 0]>>
Emit == PrintT(ToJson([ops |-> Edges0 \o hist' \o Probe]))
=============================================================================
