------------------------------ MODULE ValuesMC -------------------------------
(* Design of the geometry objects (C09): slots are handles to objects on a    *)
(* heap; a clone, a stored child and a child that is read are objects of      *)
(* their own.  What is seen through the handles is what Values.tla says,      *)
(* where everything is a plain value.  When reading a child shares it, it is  *)
(* not (Share = "load"), nor when storing or cloning does.                    *)
EXTENDS Values
CONSTANTS Share, Depth
VARIABLES S,     \* plain values
          line, ml,   \* handles: two slots each
          obj, n
vars == <<S, line, ml, obj, n>>
Pt1 == <<1, 0, 0>>
L1 == <<Pt1>>
New(o, v) == Append(o, v)
\* a line is <<v>>, a multiline a sequence of handles to lines
LineOf(h) == obj[h]
MlOf(h) == [i \in 1..Len(obj[h]) |-> obj[obj[h][i]]]
Init == /\ S = [Start0 EXCEPT !.line = <<L1, <<>>>>]
        /\ obj = << L1, <<>>, <<>>, <<>> >> /\ line = <<1, 2>> /\ ml = <<3, 4>> /\ n = 0
Step(e) == n < Depth /\ n' = n + 1 /\ S' = VDo(S, e)
Copy(h) == Append(obj, obj[h])
AddLine(a, c) == /\ Step([op |-> "add", k |-> "ml", a |-> a, c |-> c]) /\ Len(obj[ml[a]]) < 2 /\ UNCHANGED <<line, ml>>
  /\ obj' = IF Share = "add" THEN [obj EXCEPT ![ml[a]] = Append(@, line[c])]
            ELSE LET o == Copy(line[c]) IN [o EXCEPT ![ml[a]] = Append(@, Len(o))]
Load(a, i, c) == /\ i <= Len(obj[ml[a]]) /\ Step([op |-> "load", k |-> "ml", a |-> a, i |-> i, c |-> c]) /\ UNCHANGED ml
  /\ IF Share = "load" THEN line' = [line EXCEPT ![c] = obj[ml[a]][i]] /\ UNCHANGED obj
     ELSE obj' = Copy(obj[ml[a]][i]) /\ line' = [line EXCEPT ![c] = Len(obj) + 1]
CloneLine(a, b) == /\ a # b /\ Step([op |-> "clone", k |-> "line", a |-> a, b |-> b]) /\ UNCHANGED ml
  /\ IF Share = "clone" THEN line' = [line EXCEPT ![a] = line[b]] /\ UNCHANGED obj
     ELSE obj' = Copy(line[b]) /\ line' = [line EXCEPT ![a] = Len(obj) + 1]
\* a multiline is cloned with its lines
CloneMl(a, b) == /\ a # b /\ Step([op |-> "clone", k |-> "ml", a |-> a, b |-> b]) /\ UNCHANGED line
  /\ LET m == obj[ml[b]] k == Len(obj) IN
     /\ obj' = obj \o (IF Share = "shallow" THEN <<m>> ELSE [i \in 1..Len(m) |-> obj[m[i]]] \o << [i \in 1..Len(m) |-> k + i] >>)
     /\ ml' = [ml EXCEPT ![a] = Len(obj')]
ScaleLine(a) == /\ Step([op |-> "scale", k |-> "line", a |-> a, f |-> 2]) /\ UNCHANGED <<line, ml>>
  /\ obj' = [obj EXCEPT ![line[a]] = Map("line", @, "mul", 2)]
ScaleMl(a) == /\ obj[ml[a]] # <<>> /\ Step([op |-> "scale", k |-> "ml", a |-> a, f |-> 2]) /\ UNCHANGED <<line, ml>>
  /\ obj' = [h \in 1..Len(obj) |-> IF h \in {obj[ml[a]][i] : i \in 1..Len(obj[ml[a]])} THEN Map("line", obj[h], "mul", 2) ELSE obj[h]]
Next == \/ \E a, c \in 1..2 : AddLine(a, c) \/ CloneLine(a, c) \/ CloneMl(a, c)
        \/ \E a, i, c \in 1..2 : Load(a, i, c)
        \/ \E a \in 1..2 : ScaleLine(a) \/ ScaleMl(a)
Spec == Init /\ [][Next]_vars
Seen == /\ \A a \in 1..2 : LineOf(line[a]) = S.line[a]
        /\ \A a \in 1..2 : MlOf(ml[a]) = S.ml[a]
=============================================================================
