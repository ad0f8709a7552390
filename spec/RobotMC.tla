------------------------------ MODULE RobotMC ------------------------------
(* Every short history on two robots.                                        *)
EXTENDS Robot, Json
CONSTANTS MaxLen
VARIABLES S, hist
Ops == {[op |-> o, a |-> 0, v |-> v] : o \in {"width", "cov", "cruise", "turn", "radius", "curv", "diff"}, v \in {4, 20}}
  \cup {[op |-> o, a |-> 0, v |-> -4] : o \in {"radius", "curv", "diff"}}
  \cup {[op |-> "make2", a |-> 0, w |-> w, c |-> c] : w \in {-8, 0, 8}, c \in {-1, 0, 24}}
  \cup {[op |-> o, a |-> 1, b |-> 0] : o \in {"copy", "assign", "move"}}
  \cup {[op |-> "name", a |-> 0, s |-> "x"], [op |-> "assign", a |-> 0, b |-> 1]}
Init == S = [k \in 0..2 |-> Default] /\ hist = <<>>
Next == \E o \in Ops : Len(hist) < MaxLen /\ S' = BDo(S, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<S, hist>>
view == S
CovSet == \A k \in 0..1 : S[k].w > 0 => S[k].cov # -1
LimOk == \A k \in 0..1 : S[k].lim >= 0 /\ S[k].diff >= -1
Emit == PrintT(ToJson([ops |-> hist' \o <<[op |-> "get", a |-> 0], [op |-> "get", a |-> 1]>>]))
=============================================================================
