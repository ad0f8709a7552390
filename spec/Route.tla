------------------------------- MODULE Route -------------------------------
(* A route: connections (point sequences) and groups of swaths, alternating, *)
(* a connection first.  Two routes are kept, so that copies can be compared  *)
(* with what they were copied from, and a headland graph (of Graph2D).       *)
EXTENDS SwathSeq, Dist
G == INSTANCE Graph2D
NoRoute == [sw |-> <<>>, cn |-> <<>>]
R0 == [r |-> [k \in 0..1 |-> NoRoute], g |-> G!PNone]

\* the points travelled, in order
RECURSIVE SwathsPts(_), Trip(_, _)
SwathsPts(ss) == IF ss = <<>> THEN <<>> ELSE ss[1].p \o SwathsPts(Tail(ss))
Trip(cn, sw) ==
  IF cn = <<>> /\ sw = <<>> THEN <<>>
  ELSE (IF cn = <<>> THEN <<>> ELSE cn[1]) \o (IF sw = <<>> THEN <<>> ELSE SwathsPts(sw[1]))
       \o Trip(IF cn = <<>> THEN <<>> ELSE Tail(cn), IF sw = <<>> THEN <<>> ELSE Tail(sw))
TripOf(r) == Trip(r.cn, r.sw)
IsEmptyR(r) == r.cn = <<>> /\ r.sw = <<>>
\* a connection is open when no swaths follow it yet
Open(r) == Len(r.cn) > Len(r.sw)
\* building
OpenCon(r) == IF Open(r) THEN r ELSE [r EXCEPT !.cn = Append(@, <<>>)]
AddPts(r, ps) == LET o == OpenCon(r) IN [o EXCEPT !.cn[Len(o.cn)] = @ \o ps]
AddSwaths(r, ss) ==
  LET o == IF r.cn = <<>> THEN OpenCon(r) ELSE r
  IN IF Open(o) THEN [o EXCEPT !.sw = Append(@, ss)]
     ELSE [o EXCEPT !.sw[Len(o.sw)] = @ \o ss]
\* a swath reached over the headland graph: from where the route stands
Reached(s, r, sw) ==
  G!Has(s.g, TripOf(r)[Len(TripOf(r))]) /\ G!Has(s.g, sw.p[1])

RRefused(s, e) ==
  e.op = "swathG" /\ ~IsEmptyR(s.r[e.a]) /\ ~Reached(s, s.r[e.a], e.s)
RAllowed(s, e) ==
  CASE e.op = "swathG" -> IsEmptyR(s.r[e.a]) \/ TripOf(s.r[e.a]) # <<>>
    [] e.op \in {"setCon", "growCon"} -> e.i < Len(s.r[e.a].cn)
    [] e.op \in {"setSwaths", "growSwaths", "flip"} -> e.i < Len(s.r[e.a].sw)
    [] e.op = "growLastCon" -> s.r[e.a].cn # <<>>
    [] e.op = "growLastSwaths" -> s.r[e.a].sw # <<>>
    [] OTHER -> TRUE
\* ways: the points a "swathG" was led over, as chosen by the graph
RDoW(s, e, way) ==
  IF RRefused(s, e) THEN s
  ELSE CASE e.op = "edge" -> [s EXCEPT !.g = G!PAddU(@, e.p, e.q, e.c)]
    [] e.op = "swaths" -> [s EXCEPT !.r[e.a] = AddSwaths(@, AsSeq(e.ss))]
    [] e.op = "conswaths" -> [s EXCEPT !.r[e.a] = AddSwaths(AddPts(@, e.ps), AsSeq(e.ss))]
    [] e.op = "swath" -> [s EXCEPT !.r[e.a] = AddSwaths(@, <<AsSwath(e.s)>>)]
    [] e.op = "swathG" ->
         [s EXCEPT !.r[e.a] = AddSwaths(IF IsEmptyR(@) THEN @ ELSE AddPts(@, way), <<AsSwath(e.s)>>)]
    [] e.op = "con" -> [s EXCEPT !.r[e.a] = OpenCon(@)]
    [] e.op = "conP" -> [s EXCEPT !.r[e.a] = AddPts(@, <<e.p>>)]
    [] e.op \in {"conM", "conV"} -> [s EXCEPT !.r[e.a] = AddPts(@, e.ps)]
    [] e.op = "setCon" -> [s EXCEPT !.r[e.a].cn[e.i + 1] = e.ps]
    [] e.op = "setSwaths" -> [s EXCEPT !.r[e.a].sw[e.i + 1] = AsSeq(e.ss)]
    [] e.op = "growCon" -> [s EXCEPT !.r[e.a].cn[e.i + 1] = Append(@, e.p)]
    [] e.op = "growLastCon" -> LET n == Len(s.r[e.a].cn) IN [s EXCEPT !.r[e.a].cn[n] = Append(@, e.p)]
    [] e.op = "growSwaths" -> [s EXCEPT !.r[e.a].sw[e.i + 1] = Append(@, AsSwath(e.s))]
    [] e.op = "growLastSwaths" ->
         LET n == Len(s.r[e.a].sw) IN [s EXCEPT !.r[e.a].sw[n] = Append(@, AsSwath(e.s))]
    [] e.op = "flip" -> [s EXCEPT !.r[e.a].sw[e.i + 1] = [k \in DOMAIN @ |-> Reversed(@[k])]]
    [] e.op = "clone" -> [s EXCEPT !.r[e.a] = s.r[e.b]]
    [] e.op = "new" -> [s EXCEPT !.r[e.a] = NoRoute]
    [] OTHER -> s
\* what was appended to the connection before the new swath
Appended(s, e) ==
  LET r == s.r[e.a] old == IF Open(r) THEN r.cn[Len(r.cn)] ELSE <<>> IN
  IF Len(e.r) >= Len(old) /\ SubSeq(e.r, 1, Len(old)) = old
  THEN [ok |-> TRUE, way |-> SubSeq(e.r, Len(old) + 1, Len(e.r))]
  ELSE [ok |-> FALSE, way |-> <<>>]
\* any shortest path will do for generating scenarios
SomeWay(s, r, sw) ==
  LET a == TripOf(r)[Len(TripOf(r))] b == sw.p[1] i == G!Ix(s.g, a) j == G!Ix(s.g, b) IN
  IF i = j \/ G!DistN(s.g.g, i, j) = G!NoPath THEN <<>>
  ELSE LET p == CHOOSE p \in G!SimplePaths(s.g.g, i, j) : G!PathCost(s.g.g, p) = G!DistN(s.g.g, i, j)
       IN [k \in DOMAIN p |-> s.g.pts[p[k] + 1]]
RDo(s, e) ==
  RDoW(s, e, IF e.op = "swathG" /\ ~IsEmptyR(s.r[e.a]) /\ ~RRefused(s, e)
             THEN SomeWay(s, s.r[e.a], e.s) ELSE <<>>)
RPost(s, e) == RDoW(s, e, IF e.op = "swathG" /\ e.x = "" THEN Appended(s, e).way ELSE <<>>)
Paired(r) == Len(r.cn) = Len(r.sw) \/ Len(r.cn) = Len(r.sw) + 1
GetR(r, o) ==
  LET t == TripOf(r) n == Len(t) IN
  /\ [k \in DOMAIN o.sw |-> AsSeq(o.sw[k])] = r.sw /\ o.sw2 = o.sw
  /\ o.cn = r.cn /\ o.cn2 = r.cn
  /\ o.line = t
  /\ o.st = (IF n = 0 THEN <<0, 0>> ELSE t[1])
  /\ o.en = (IF n = 0 THEN <<0, 0>> ELSE t[n])
  /\ o.empty = IsEmptyR(r)
  /\ Close(o.len, MilliLen(t), n)
  /\ (r.sw # <<>> => AsSeq(o.ls) = r.sw[Len(r.sw)])
  /\ (r.cn # <<>> => o.lc = r.cn[Len(r.cn)])
RVerdict(s, e) ==
  IF RRefused(s, e) THEN IF e.x # "" THEN <<>> ELSE <<"C04", "a swath off the graph was connected">>
  ELSE IF e.x # "" THEN <<"C04", "unexpected exception " \o e.x>>
  ELSE CASE e.op = "get" -> IF GetR(s.r[e.a], e.r) THEN <<>>
                            ELSE <<"C04", "route is not the sequence of what was added">>
    [] e.op = "swathG" ->
         LET r == s.r[e.a] ap == Appended(s, e) IN
         IF ~ap.ok THEN <<"C04", "an earlier connection was changed">>
         ELSE IF IsEmptyR(r) THEN IF ap.way = <<>> THEN <<>> ELSE <<"C04", "first swath came with a connection">>
         ELSE LET a == TripOf(r)[Len(TripOf(r))] b == e.s.p[1] IN
              IF G!AllKnown(s.g, ap.way)
                 /\ G!PathRight(s.g.g, G!Ix(s.g, a), G!Ix(s.g, b), G!PDist(s.g, a, b), G!Ixs(s.g, ap.way))
              THEN <<>> ELSE <<"C04", "connection is not a shortest path to the swath">>
    [] OTHER -> <<>>
=============================================================================
