------------------------------- MODULE Tracks -------------------------------
(* Swath generation for an angle (C17).  The driving direction is an integer  *)
(* vector d = <<a, b>> of integer length L; u = a x + b y and v = -b x + a y   *)
(* are L times the coordinates along and across it.  Widths are in eighths.   *)
(* Track k runs at v = min v + L (2 k - 1) w / 16; every maximal run of the    *)
(* cell along it is one swath.                                                *)
EXTENDS Region
Len2(d) == IRoot(d[1] * d[1] + d[2] * d[2], 0, 46341)
UOf(d, p) == d[1] * p[1] + d[2] * p[2]
VOf(d, p) == d[1] * p[2] - d[2] * p[1]
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET m == MinOf(S) IN <<m>> \o SortSet(S \ {m})
\* 16 times the v of track k
TrackV(d, c, w, k) == 16 * MinOf({VOf(d, p) : p \in Vertices(<<c>>)}) + Len2(d) * (2 * k - 1) * w
TopV(d, c) == 16 * MaxOf({VOf(d, p) : p \in Vertices(<<c>>)})
\* how many tracks meet the cell
NTracks(d, c, w) == LET room == TopV(d, c) - TrackV(d, c, w, 1) IN
  IF room <= 0 THEN 0 ELSE 1 + (room - 1) \div (2 * Len2(d) * w)
\* a track through a corner: how its runs are cut there is left open
Dirty(d, c, t) == \E p \in Vertices(<<c>>) : 16 * VOf(d, p) = t
\* where track t enters or leaves, in 80ths
CrossesAt(d, c, t) ==
  {<<e, LET va == 16 * VOf(d, e[1]) vb == 16 * VOf(d, e[2]) ua == UOf(d, e[1]) ub == UOf(d, e[2])
     IN IF vb > va THEN 80 * ua + (80 * (ub - ua) * (t - va)) \div (vb - va)
        ELSE 80 * ub + (80 * (ua - ub) * (t - vb)) \div (va - vb)>>
     : e \in {e \in CellEdges(c) : (16 * VOf(d, e[1]) > t) # (16 * VOf(d, e[2]) > t)}}
RECURSIVE Ordered(_)
Ordered(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x[2] <= y[2] IN <<m[2]>> \o Ordered(S \ {m})
Runs(d, c, t) == LET s == Ordered(CrossesAt(d, c, t)) IN [i \in 1..(Len(s) \div 2) |-> <<s[2 * i - 1], s[2 * i]>>]
\* --- observed swaths: [id, w, t, p] with points in 80ths ---
Tol(d) == Abs(d[1]) + Abs(d[2]) + 1
OnTrack(d, t, o) == \A i \in 1..Len(o.p) : Abs(VOf(d, o.p[i]) - 5 * t) <= Tol(d)
From(d, o) == MinOf({UOf(d, o.p[i]) : i \in 1..Len(o.p)})
Till(d, o) == MaxOf({UOf(d, o.p[i]) : i \in 1..Len(o.p)})
Mine(d, t, ss) == {i \in 1..Len(ss) : OnTrack(d, t, ss[i])}
CleanOK(d, c, t, ss) ==
  LET rs == Runs(d, c, t) m == Mine(d, t, ss) IN
  /\ Cardinality(m) = Len(rs)
  /\ \A i \in m : Len(ss[i].p) = 2
  /\ \A j \in 1..Len(rs) : \E i \in m : Abs(From(d, ss[i]) - rs[j][1]) <= Tol(d) + 1 /\ Abs(Till(d, ss[i]) - rs[j][2]) <= Tol(d) + 1
\* on a track through corners: what is inside is covered, what is outside is not
DirtyOK(d, c, t, ss) ==
  LET L == Len2(d) m == Mine(d, t, ss)
      lo == 16 * MinOf({UOf(d, p) : p \in Vertices(<<c>>)}) hi == 16 * MaxOf({UOf(d, p) : p \in Vertices(<<c>>)})
      \* u and v of the frame are L times longer than x and y: the cell in the frame, in 16ths
      T(p) == <<16 * UOf(d, p), 16 * VOf(d, p)>>
      fc == [j \in 1..Len(c) |-> MapRing(c[j], T)] es == CellEdges(fc)
  IN \A k \in 1..20 : LET q == <<lo + ((hi - lo) * k) \div 21, t>> IN
       IF Near(es, q, 4) THEN TRUE
       ELSE (\E i \in m : From(d, ss[i]) <= 5 * q[1] /\ 5 * q[1] <= Till(d, ss[i])) = InEdges(es, q)
\* swaths ss of cell c
CellOK(d, c, w, ss) ==
  LET n == NTracks(d, c, w) IN
  /\ \A i \in 1..Len(ss) : ss[i].id = i - 1 /\ ss[i].w = w /\ ss[i].t = 0
  /\ \A i \in 1..Len(ss) : \E k \in 1..(n + 1) : OnTrack(d, TrackV(d, c, w, k), ss[i])
  /\ \A k \in 1..n : LET t == TrackV(d, c, w, k) IN IF Dirty(d, c, t) THEN DirtyOK(d, c, t, ss) ELSE CleanOK(d, c, t, ss)
  \* the last track may only touch the cell
  /\ LET t == TrackV(d, c, w, n + 1) IN t > TopV(d, c) => Mine(d, t, ss) = {}
CStart == [overlap |-> FALSE]
CDo(s, e) == IF e.op = "overlap" THEN [s EXCEPT !.overlap = e.v] ELSE s
CWhy(s, e) ==
  IF e.x # "" THEN <<"C17", "swath generation failed">>
  ELSE CASE e.op = "overlap" -> IF e.r = e.v THEN <<>> ELSE <<"C17", "whether overlap is allowed">>
    [] e.op = "swaths" ->
         IF Len(e.r) # Len(e.v) THEN <<"C17", "one group per cell">>
         ELSE IF \E i \in 1..Len(e.v) : ~CellOK(e.d, e.v[i], e.w, e.r[i]) THEN <<"C17", "the swaths of a cell">> ELSE <<>>
    [] e.op = "append" ->
         IF Len(e.r.ss) # e.n + Len(e.r.lines) THEN <<"C17", "how many swaths are appended">>
         ELSE IF \E i \in 1..Len(e.r.lines) : LET o == e.r.ss[e.n + i] IN
                 ~(o.id = e.n + i - 1 /\ o.w = e.w /\ o.t = e.t /\ o.p = e.r.lines[i]) THEN <<"C17", "an appended swath">>
         ELSE IF \E i \in 1..e.n : e.r.ss[i].id # i - 1 \/ e.r.ss[i].w # 8 \/ e.r.ss[i].t # 0 THEN <<"C17", "a swath that was there">>
         ELSE <<>>
=============================================================================
