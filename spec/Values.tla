------------------------------- MODULE Values -------------------------------
(* Geometry objects as independent values (C09).  S maps each kind to its    *)
(* slots; a point is <<x,y,z>>, a line, ring or multipoint a sequence of      *)
(* points, a multiline a sequence of lines, a cell a sequence of rings and    *)
(* cells a sequence of cells.  Every operation has the effect it would have   *)
(* on plain values: nothing is shared.  Handles that share by plain copying   *)
(* are not used here (only points promise independence when copied).          *)
EXTENDS Integers, Sequences, TLC, Json
Kinds == {"line", "ring", "mp", "ml", "cell", "cells"}
PtKinds == {"line", "ring", "mp"}
Child(k) == CASE k \in PtKinds -> "pt" [] k = "ml" -> "line" [] k = "cell" -> "ring" [] k = "cells" -> "cell"
Origin == <<0, 0, 0>>
Start0 == [pt |-> <<Origin, Origin, Origin>>, line |-> << <<>>, <<>> >>, ring |-> << <<>>, <<>> >>,
           mp |-> << <<>>, <<>> >>, ml |-> << <<>>, <<>> >>, cell |-> << <<>>, <<>> >>, cells |-> << <<>>, <<>> >>]
Closed(r) == IF Len(r) = 0 \/ r[1] = r[Len(r)] THEN r ELSE Append(r, r[1])
\* what a container makes of a child: only a cell changes it, by closing the ring
Stored(k, v) == IF k = "cell" THEN Closed(v) ELSE v
PAdd(p, d) == <<p[1] + d[1], p[2] + d[2], p[3] + d[3]>>
PSub(p, d) == <<p[1] - d[1], p[2] - d[2], p[3] - d[3]>>
PMul(p, f) == <<p[1] * f, p[2] * f, p[3] * f>>
\* v of kind k with g applied to every point
RECURSIVE Map(_, _, _, _)
One(p, g, d) == CASE g = "add" -> PAdd(p, d) [] g = "sub" -> PSub(p, d) [] g = "rsub" -> PSub(d, p) [] OTHER -> PMul(p, d)
Map(k, v, g, d) == IF k = "pt" THEN One(v, g, d) ELSE [i \in 1..Len(v) |-> Map(Child(k), v[i], g, d)]
\* moving an area makes a new one, whose borders are closed
Shut(k, v) == CASE k = "cell" -> [i \in 1..Len(v) |-> Closed(v[i])] [] k = "cells" -> [n \in 1..Len(v) |-> [i \in 1..Len(v[n]) |-> Closed(v[n][i])]] [] OTHER -> v
Rev(v) == [i \in 1..Len(v) |-> v[Len(v) + 1 - i]]
SetAt(v, i, x) == IF i <= Len(v) THEN [v EXCEPT ![i] = x] ELSE Append(v, x)
Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
\* the points sorted by x, then y (stable)
Sort3(s) == LET Bub(t, i) == IF Less(t[i + 1], t[i]) THEN [t EXCEPT ![i] = t[i + 1], ![i + 1] = t[i]] ELSE t IN
            Bub(Bub(Bub(s, 1), 2), 1)
InRange(S, e) == e.i >= 1 /\ e.i <= Len(S[e.k][e.a])
\* "spoil": an element is read and the copy the caller got is scaled
Throws(S, e) == e.op \in {"load", "spoil"} /\ ~InRange(S, e)
VDo(S, e) ==
  CASE e.op = "mk" -> [S EXCEPT ![e.k][e.a] = e.v]
    [] e.op \in {"clone", "wkt"} -> [S EXCEPT ![e.k][e.a] = S[e.k][e.b]]
    [] e.op = "add" -> [S EXCEPT ![e.k][e.a] = Append(@, Stored(e.k, S[Child(e.k)][e.c]))]
    [] e.op = "set" -> [S EXCEPT ![e.k][e.a] = SetAt(@, e.i, Stored(e.k, S[Child(e.k)][e.c]))]
    [] e.op = "load" -> IF InRange(S, e) THEN [S EXCEPT ![Child(e.k)][e.c] = S[e.k][e.a][e.i]] ELSE S
    [] e.op = "scale" -> [S EXCEPT ![e.k][e.a] = Map(e.k, @, "mul", e.f)]
    [] e.op = "shift" -> [S EXCEPT ![e.k][e.a] = Shut(e.k, Map(e.k, S[e.k][e.b], e.how, S.pt[e.c]))]
    [] e.op = "rev" -> [S EXCEPT ![e.k][e.a] = Rev(@)]
    [] e.op = "close" -> [S EXCEPT !.ring[e.a] = Closed(@)]
    [] e.op = "edit" -> [S EXCEPT ![e.k][e.a] = Map(e.k, @, "add", e.d)]
    [] e.op = "addall" -> [S EXCEPT ![e.k][e.a] = @ \o S[e.k][e.b]]
    [] e.op = "addring" -> [S EXCEPT !.cells[e.a][e.i] = Append(@, S.ring[e.c])]
    [] e.op = "toline" -> [S EXCEPT !.line[e.a] = S.ring[e.b]]
    [] e.op = "pset" -> [S EXCEPT !.pt[e.a] = e.v]
    [] e.op \in {"passign", "pmove", "pmovector", "pcopy", "psetp"} -> [S EXCEPT !.pt[e.a] = S.pt[e.b]]
    [] e.op = "pswap" -> [S EXCEPT !.pt[e.a] = S.pt[e.b], !.pt[e.b] = S.pt[e.a]]
    [] e.op = "psort" -> [S EXCEPT !.pt = Sort3(@)]
    [] e.op = "prot" -> [S EXCEPT !.pt = <<@[2], @[3], @[1]>>]
    [] e.op = "padd" -> [S EXCEPT !.pt[e.a] = PAdd(S.pt[e.b], S.pt[e.c])]
    [] e.op = "psub" -> [S EXCEPT !.pt[e.a] = PSub(S.pt[e.b], S.pt[e.c])]
    [] OTHER -> S
\* --- answers ---
RECURSIVE Flat(_, _)
Flat(k, v) == IF k = "pt" THEN <<v[1], v[2]>> ELSE [i \in 1..Len(v) |-> Flat(Child(k), v[i])]
RECURSIVE Points(_, _)
Points(k, v) == IF k = "pt" THEN {v} ELSE UNION {Points(Child(k), v[i]) : i \in 1..Len(v)}
Ext(ps, i, big) == LET xs == {p[i] : p \in ps} IN
  IF big THEN CHOOSE x \in xs : \A y \in xs : y <= x ELSE CHOOSE x \in xs : \A y \in xs : y >= x
InfoOk(S, e) ==
  LET v == S[e.k][e.a] ps == Points(e.k, v) r == e.r IN
  /\ r.size = Len(v)
  /\ r.empty = (ps = {})
  /\ (ps # {} => r.box = <<Ext(ps, 1, FALSE), Ext(ps, 1, TRUE), Ext(ps, 2, FALSE), Ext(ps, 2, TRUE)>>
               /\ r.hw = <<r.box[4] - r.box[3], r.box[2] - r.box[1]>>)
  /\ r.iter = v /\ r.citer = v
  /\ (e.k \in PtKinds => r.ends = (IF Len(v) = 0 THEN <<>> ELSE <<v[1], v[Len(v)]>>))
\* every way of reading element i
ReadsOk(S, e) ==
  LET v == S[e.k][e.a] IN
  \A n \in 1..Len(e.r) :
     IF InRange(S, e) THEN e.r[n].x = "" /\ e.r[n].v = v[e.i]
     ELSE e.r[n].x = "out_of_range"
\* --- twins: something made of geometries is cloned and one of the two is changed ---
\* e.g lists the swaths of every group, e.conn the connections of a route, e.area
\* the cells of a strip or field; e.how tells what happens to e.who
Drive(w, e) == IF e.how = "rev" THEN [w EXCEPT !.p = Rev(@), !.d = ~@] ELSE [w EXCEPT !.p = Map("line", @, "add", e.by)]
Changed(e) == CASE e.w \in {"strip", "field"} ->
       [e.made EXCEPT !.area = IF e.w = "strip" THEN Map("cells", @, "mul", e.f)
          \* a field is kept relative to its first point
          ELSE LET o == @[1][1][1] IN Map("cells", Map("cells", Map("cells", @, "sub", o), "mul", e.f), "add", o)]
  [] OTHER -> [e.made EXCEPT !.g = [i \in 1..Len(@) |-> [j \in 1..Len(@[i]) |-> Drive(@[i][j], e)]],
                            !.conn = [i \in 1..Len(@) |-> Map("mp", @[i], "add", e.by)]]
TwinOk(e) == /\ e.r.orig = IF e.who = "orig" THEN Changed(e) ELSE e.made
             /\ e.r.twin = IF e.who = "twin" THEN Changed(e) ELSE e.made
Bad == <<"C09", "objects are not what independent values would be">>
VVerdict(S, e) ==
  IF Throws(S, e)
  THEN IF e.x = "out_of_range" THEN <<>> ELSE <<"C09", "reading outside the range was not reported">>
  ELSE IF e.x # "" THEN <<"C09", "unexpected exception " \o e.x>>
  ELSE CASE e.op = "eq" ->
         LET x == S[e.k][e.a] y == S[e.k][e.b] IN
         IF (x = y => e.r.eq) /\ (Flat(e.k, x) # Flat(e.k, y) => ~e.r.eq) /\ e.r.ne = ~e.r.eq
         THEN <<>> ELSE <<"C09", "equality disagrees with the values">>
    [] e.op = "odd" -> IF e.r.same /\ e.r.eq THEN <<>> ELSE <<"C09", "a clone of uneven coordinates differs from its original">>
    [] e.op = "twin" -> IF TwinOk(e) THEN <<>> ELSE <<"C09", "a clone is not an independent equal">>
    [] e.op = "info" -> IF InfoOk(S, e) THEN <<>> ELSE <<"C09", "sizes, iteration or extent disagree with what was stored">>
    [] e.op = "reads" -> IF ReadsOk(S, e) THEN <<>> ELSE <<"C09", "an element is not read back as stored">>
    [] e.op = "borders" ->
         LET v == S.cells[e.a] i == e.i j == e.j IN
         IF /\ (IF i >= 1 /\ i <= Len(v) THEN e.r.border.x = "" /\ e.r.border.v = v[i][1] ELSE e.r.border.x = "out_of_range")
            /\ (IF i >= 1 /\ i <= Len(v) /\ j >= 1 /\ j < Len(v[i]) THEN e.r.inner.x = "" /\ e.r.inner.v = v[i][j + 1] ELSE e.r.inner.x = "out_of_range")
         THEN <<>> ELSE <<"C09", "a border is not read back as stored">>
    [] OTHER -> IF e.r = VDo(S, e) THEN <<>> ELSE Bad
=============================================================================
