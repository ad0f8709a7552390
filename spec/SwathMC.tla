------------------------------ MODULE SwathMC ------------------------------
(* Every history of operations on two swaths over a few polylines.           *)
EXTENDS Swath, Json
CONSTANTS MaxLen, MaxShift
Lines == {<<<<0, 0>>, <<2, 0>>>>, <<<<1, 3>>, <<1, 0>>>>, <<<<0, 0>>, <<2, 0>>, <<2, 1>>>>}
Slots == {0, 1}
VARIABLES S, n, hist
vars == <<S, n, hist>>
view == <<S, n>>
Ops ==
  {[op |-> "new", a |-> a, p |-> l, w |-> w, id |-> 3, t |-> t] :
      a \in Slots, l \in Lines, w \in {0, 2}, t \in {0, 1}}
  \cup {[op |-> o, a |-> a, b |-> b] : o \in {"clone", "take", "move", "same", "opp"}, a \in Slots, b \in Slots}
  \cup {[op |-> "reverse", a |-> a] : a \in Slots}
  \cup {[op |-> "setW", a |-> a, w |-> w] : a \in Slots, w \in {-1, 0, 3}}
  \cup {[op |-> "setId", a |-> 0, id |-> 4]}
  \cup {[op |-> "setType", a |-> 1, t |-> 1]}
  \cup {[op |-> "setDir", a |-> a, d |-> FALSE] : a \in Slots}
  \cup {[op |-> "moveTo", a |-> a, v |-> <<1, -2>>] : a \in Slots}
Init == S = [k \in 0..3 |-> NoSwath] /\ n = 0 /\ hist = <<>>
Next == \E o \in Ops :
  /\ Len(hist) < MaxLen
  /\ o.op = "move" => o.a # o.b
  /\ o.op = "moveTo" => n < MaxShift
  /\ n' = IF o.op = "moveTo" THEN n + 1 ELSE n
  /\ S' = SDo(S, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_vars
\* reversing twice restores; a clone equals its original, reversed or not;
\* redirecting achieves the asked direction and never moves the land
TwiceSame == \A k \in Slots : Reversed(Reversed(S[k])) = S[k]
EqSym == \A a, b \in Slots : EqSwath(S[a], S[b]) = EqSwath(S[b], S[a])
SameLand == \A k \in Slots : EqSwath(S[k], Reversed(S[k]))
Redirect == \A a, b \in Slots :
   /\ SameDir(SameAs(S[a], S[b]), S[b]) /\ ~SameDir(OppTo(S[a], S[b]), S[b])
   /\ EqSwath(SameAs(S[a], S[b]), S[a])
LengthKept == \A k \in Slots : LineLen(S[k].p) = LineLen(Reversed(S[k]).p)
Probe == <<[op |-> "get", a |-> 0], [op |-> "get", a |-> 1],
           [op |-> "cmp", a |-> 0, b |-> 1], [op |-> "cmp", a |-> 1, b |-> 0], [op |-> "cmp", a |-> 0, b |-> 0]>>
Emit == PrintT(ToJson([ops |-> hist' \o Probe]))
=============================================================================
