------------------------------ MODULE SwathSeq ------------------------------
(* Swath collections: three named sequences of swaths, and one sequence of   *)
(* groups (swaths by cells) with a running index over all groups.            *)
EXTENDS Swath
Q0 == [v |-> [k \in 0..2 |-> <<>>], c |-> <<>>, kept |-> <<>>]
AsSwath(j) == [p |-> j.p, w |-> j.w, id |-> j.id, t |-> j.t, d |-> j.d]
RECURSIVE Flat(_)
Flat(c) == IF c = <<>> THEN <<>> ELSE c[1] \o Flat(Tail(c))
RECURSIVE Lines2Swaths(_, _, _, _)
\* each appended line gets the next free position as identifier
Lines2Swaths(ps, w, t, n) ==
  IF ps = <<>> THEN <<>>
  ELSE <<MkSwath(ps[1], w, n, t)>> \o Lines2Swaths(Tail(ps), w, t, n + 1)
RECURSIVE Alternate(_, _)
\* a swath is turned when it travels like the one before it.  Lines that are
\* not parallel enough to tell are compared by their direction of creation
Dot(a, b) == (EndP(a)[1] - StartP(a)[1]) * (EndP(b)[1] - StartP(b)[1])
           + (EndP(a)[2] - StartP(a)[2]) * (EndP(b)[2] - StartP(b)[2])
Travels(a, b) == IF Dot(a, b) = 0 THEN SameDir(a, b) ELSE Dot(a, b) > 0
Alternate(s, k) ==
  IF k > Len(s) THEN s
  ELSE Alternate(IF Travels(s[k], s[k - 1]) THEN [s EXCEPT ![k] = Reversed(@)] ELSE s, k + 1)
\* group and offset of a running index
RECURSIVE Locate(_, _, _)
Locate(c, i, g) == IF g > Len(c) THEN <<0, 0>>
                   ELSE IF i < Len(c[g]) THEN <<g, i + 1>>
                   ELSE Locate(c, i - Len(c[g]), g + 1)

Sorted(s, r) == \A k \in 1..(Len(r) - 1) : r[k].id <= r[k + 1].id
Count(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
SamePermutation(s, r) ==
  Len(s) = Len(r) /\ \A k \in DOMAIN s : Count(s, s[k]) = Count(r, s[k])
RECURSIVE InsertById(_, _)
InsertById(s, x) == IF s = <<>> THEN <<x>>
                    ELSE IF x.id < s[1].id THEN <<x>> \o s
                    ELSE <<s[1]>> \o InsertById(Tail(s), x)
RECURSIVE SortById(_)
SortById(s) == IF s = <<>> THEN <<>> ELSE InsertById(SortById(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])

\* out-of-range access: reported when the call is a checked one
Bad(S, e) ==
  CASE e.op \in {"at", "set"} -> e.i < 0 \/ e.i >= Len(S.v[e.v])
    [] e.op \in {"gAt", "gMove"} -> e.i < 0 \/ e.i >= Len(S.c)
    [] e.op = "gSet" -> e.i < 0 \/ e.i >= Len(S.c)
    [] e.op \in {"gSwath", "gSwathSet", "gTurn"} -> e.i < 0 \/ e.i >= Len(Flat(S.c))
    [] e.op \in {"emplaceLine", "appendLine"} -> e.w <= 0
    [] e.op = "appendLines" -> e.w <= 0 /\ e.ps # <<>>
    [] OTHER -> FALSE
\* calls outside the domain (unchecked access); generators avoid them
Allowed(S, e) ==
  CASE e.op = "setX" -> e.i < Len(S.v[e.v])
    [] e.op \in {"back", "setBack"} -> S.v[e.v] # <<>>
    [] e.op = "gMoveX" -> e.i < Len(S.c)
    [] e.op = "gX" -> e.i < Len(S.c)
    [] e.op \in {"gLast", "gAltLast"} -> S.c # <<>>
    [] e.op = "gSortAll" -> \A g \in DOMAIN S.c : \A a, b \in DOMAIN S.c[g] : S.c[g][a].id = S.c[g][b].id => a = b
    [] e.op = "sort" -> \* identifiers tie: any order is right, so avoid
         \A a, b \in DOMAIN S.v[e.v] : S.v[e.v][a].id = S.v[e.v][b].id => a = b
    [] OTHER -> TRUE
QDo(S, e) ==
  IF Bad(S, e) THEN S
  ELSE CASE e.op \in {"emplace", "push"} -> [S EXCEPT !.v[e.v] = Append(@, AsSwath(e.s))]
    [] e.op = "emplaceLine" -> [S EXCEPT !.v[e.v] = Append(@, MkSwath(e.p, e.w, e.id, e.t))]
    [] e.op = "appendLine" -> [S EXCEPT !.v[e.v] = @ \o Lines2Swaths(<<e.p>>, e.w, e.t, Len(@))]
    [] e.op = "appendLines" -> [S EXCEPT !.v[e.v] = @ \o Lines2Swaths(e.ps, e.w, e.t, Len(@))]
    [] e.op = "appendSeq" -> [S EXCEPT !.v[e.v] = @ \o S.v[e.u]]
    [] e.op = "clone" -> [S EXCEPT !.v[e.v] = S.v[e.u]]
    [] e.op = "make" -> [S EXCEPT !.v[e.v] = [k \in DOMAIN e.ss |-> AsSwath(e.ss[k])]]
    [] e.op = "sized" -> [S EXCEPT !.v[e.v] = [k \in 1..e.i |-> NoSwath]]
    [] e.op = "reverse" -> [S EXCEPT !.v[e.v] = Rev(@)]
    [] e.op = "sort" -> [S EXCEPT !.v[e.v] = SortById([k \in DOMAIN @ |-> Forward(@[k])])]
    [] e.op = "alt" -> [S EXCEPT !.v[e.v] = Alternate(@, 2)]
    [] e.op = "moveTo" -> [S EXCEPT !.v[e.v] = [k \in DOMAIN @ |-> Moved(@[k], e.d)]]
    [] e.op \in {"set", "setX"} -> [S EXCEPT !.v[e.v][e.i + 1] = AsSwath(e.s)]
    [] e.op = "setBack" -> [S EXCEPT !.v[e.v][Len(S.v[e.v])] = AsSwath(e.s)]
    [] e.op \in {"gPush", "gEmplace"} -> [S EXCEPT !.c = Append(@, S.v[e.v])]
    [] e.op = "gReverse" -> [S EXCEPT !.c = Rev(@)]
    [] e.op = "gMake" -> [S EXCEPT !.c = <<S.v[e.v], S.v[e.u]>>]
    [] e.op = "gSet" -> [S EXCEPT !.c[e.i + 1] = S.v[e.v]]
    [] e.op = "gSwathSet" ->
         LET at == Locate(S.c, e.i, 1) IN [S EXCEPT !.c[at[1]][at[2]] = AsSwath(e.s)]
    [] e.op = "gList" -> [S EXCEPT !.c = <<S.v[e.v], S.v[e.u], S.v[e.v]>>]
    [] e.op = "gSized" -> [S EXCEPT !.c = [k \in 1..e.i |-> <<>>]]
    [] e.op = "gKeep" -> [S EXCEPT !.kept = S.c]
    [] e.op = "gBack" -> [S EXCEPT !.c = S.kept]
    [] e.op \in {"gMove", "gMoveX"} -> [S EXCEPT !.c[e.i + 1] = [k \in DOMAIN @ |-> Moved(@[k], e.d)]]
    [] e.op = "gTurn" -> LET at == Locate(S.c, e.i, 1) IN [S EXCEPT !.c[at[1]][at[2]] = Reversed(@)]
    [] e.op = "gAltLast" -> [S EXCEPT !.c[Len(S.c)] = Alternate(@, 2)]
    [] e.op = "gSortAll" -> [S EXCEPT !.c = [g \in DOMAIN @ |-> SortById([k \in DOMAIN @[g] |-> Forward(@[g][k])])]]
    [] e.op = "gFlatten" -> [S EXCEPT !.v[e.v] = Flat(S.c)]
    [] OTHER -> S
AsSeq(r) == [k \in DOMAIN r |-> AsSwath(r[k])]
QVerdict(S, e) ==
  IF Bad(S, e)
  THEN IF e.x # "" THEN <<>> ELSE <<"C07", "access outside the collection, or a bad width, was accepted">>
  ELSE IF e.x # "" THEN <<"C07", "unexpected exception " \o e.x>>
  ELSE CASE e.op = "at" ->
              IF AsSwath(e.r) = S.v[e.v][e.i + 1] THEN <<>> ELSE <<"C07", "element read differs">>
         [] e.op = "back" ->
              IF AsSwath(e.r) = S.v[e.v][Len(S.v[e.v])] THEN <<>> ELSE <<"C07", "last element differs">>
         [] e.op = "all" ->
              IF e.r.n = Len(S.v[e.v]) /\ AsSeq(e.r.all) = S.v[e.v] THEN <<>>
              ELSE <<"C07", "collection is not what its history made it">>
         [] e.op = "gSwath" ->
              IF AsSwath(e.r) = Flat(S.c)[e.i + 1] THEN <<>>
              ELSE <<"C07", "running index over the groups is wrong">>
         [] e.op \in {"gX", "gLast"} ->
              IF AsSeq(e.r) = S.c[IF e.op = "gX" THEN e.i + 1 ELSE Len(S.c)] THEN <<>> ELSE <<"C07", "group read differs">>
         [] e.op = "gAt" ->
              IF AsSeq(e.r) = S.c[e.i + 1] THEN <<>> ELSE <<"C07", "group read differs">>
         [] e.op = "gAll" ->
              IF /\ e.r.n = Len(S.c) /\ e.r.total = Len(Flat(S.c))
                 /\ [k \in DOMAIN e.r.all |-> AsSeq(e.r.all[k])] = S.c
                 /\ AsSeq(e.r.flat) = Flat(S.c)
                 /\ [k \in DOMAIN e.r.kept |-> AsSeq(e.r.kept[k])] = S.kept
              THEN <<>> ELSE <<"C07", "groups are not what their history made them">>
         [] OTHER -> <<>>
=============================================================================
