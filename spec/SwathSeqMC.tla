----------------------------- MODULE SwathSeqMC -----------------------------
(* Every short history over two collections and the groups.                  *)
EXTENDS SwathSeq, Json
CONSTANTS MaxLen, MaxSize
SA == [p |-> <<<<0, 0>>, <<0, 2>>>>, w |-> 2, id |-> 5, t |-> 1, d |-> TRUE]
SB == [p |-> <<<<1, 3>>, <<1, 0>>>>, w |-> 3, id |-> 4, t |-> 0, d |-> FALSE]
LA == <<<<2, 0>>, <<2, 1>>>>
LB == <<<<3, 1>>, <<3, 0>>>>
VARIABLES S, hist
Ops ==
  {[op |-> "push", v |-> v, s |-> s] : v \in {0, 1}, s \in {SA, SB}}
  \cup {[op |-> "appendLines", v |-> 0, ps |-> <<LA, LB>>, w |-> w, t |-> 1] : w \in {0, 1}}
  \cup {[op |-> "appendLine", v |-> 1, p |-> LB, w |-> 1, t |-> 0]}
  \cup {[op |-> "appendSeq", v |-> 0, u |-> 1], [op |-> "appendSeq", v |-> 1, u |-> 1]}
  \cup {[op |-> o, v |-> 0] : o \in {"reverse", "sort", "alt"}}
  \cup {[op |-> o, v |-> v] : o \in {"gPush"}, v \in {0, 1}}
  \cup {[op |-> "gReverse"], [op |-> "gClone"], [op |-> "gKeep"], [op |-> "gBack"], [op |-> "gTurn", i |-> 0], [op |-> "gMove", i |-> 0, d |-> <<1, 2>>], [op |-> "gFlatten", v |-> 1], [op |-> "clone", v |-> 0, u |-> 1]}
  \cup {[op |-> "gSwathSet", i |-> i, s |-> SB] : i \in {0, 2}}
  \cup {[op |-> "set", v |-> 0, i |-> i, s |-> SB] : i \in {1}}
Size(T) == Len(T.v[0]) + Len(T.v[1]) + Len(Flat(T.c)) + Len(T.c)
Init == S = Q0 /\ hist = <<>>
Next == \E o \in Ops :
  /\ Len(hist) < MaxLen /\ Allowed(S, o)
  /\ Size(QDo(S, o)) <= MaxSize
  /\ S' = QDo(S, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<S, hist>>
view == S
\* sorting and alternating never lose or invent a swath
NoLoss == \A v \in {0, 1} :
  LET f == [k \in DOMAIN S.v[v] |-> S.v[v][k].id]
      g == Alternate(S.v[v], 2)
      h == SortById([k \in DOMAIN S.v[v] |-> Forward(S.v[v][k])])
  IN /\ Len(g) = Len(f) /\ \A k \in DOMAIN f : g[k].id = f[k] /\ EqSwath(g[k], S.v[v][k])
     /\ Sorted(f, h) /\ \A x \in DOMAIN f : \E y \in DOMAIN h : EqSwath(h[y], S.v[v][x])
IndexTotal == \A i \in 0..(Len(Flat(S.c)) - 1) :
  LET at == Locate(S.c, i, 1) IN S.c[at[1]][at[2]] = Flat(S.c)[i + 1]
Probe == <<[op |-> "all", v |-> 0], [op |-> "all", v |-> 1], [op |-> "gAll"],
           [op |-> "gSwath", i |-> 0], [op |-> "gSwath", i |-> 1], [op |-> "gSwath", i |-> 3],
           [op |-> "at", v |-> 0, i |-> 1], [op |-> "gAt", i |-> 1]>>
Emit == PrintT(ToJson([ops |-> hist' \o Probe]))
=============================================================================
