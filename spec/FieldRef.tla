------------------------------ MODULE FieldRef ------------------------------
(* Fields and their coordinate systems (C10).  The projections themselves    *)
(* are not modelled: a field is where it is on the globe, given as lattice    *)
(* points (1e-4 degree) relative to the scenario's base, and no change of     *)
(* coordinate system moves it.  Observed positions are 1e-8 degree.           *)
EXTENDS Integers, Sequences, TLC
Blank == [id |-> "", crs |-> "", prev |-> "", pts |-> <<>>, ref |-> <<>>, based |-> TRUE]
Start0 == [lon |-> 0, lat |-> 0, dx |-> 0, dy |-> 0, f |-> <<Blank, Blank, Blank>>]
Geo == {"EPSG:4326", "EPSG:4258"}
Unusable == {"", "FOO", "WGS"}
IsEmpty(x) == Len(x.pts) = 0
RefPt(x) == IF IsEmpty(x) THEN x.ref ELSE x.pts[1][1][1]
\* the part of the world for which ETRS89 is used, in 1e-4 degree
InEurope(S, x) == LET X == S.lon * 10000 + S.dx + RefPt(x)[1]  Y == S.lat * 10000 + S.dy + RefPt(x)[2] IN
                  X < 328800 /\ X > -161000 /\ Y < 847300 /\ Y > 401800
Zone(S) == (S.lon + 180) \div 6 + 1
\* the UTM code of this place
UtmCode(S, datum) == "UTM:" \o ToString(Zone(S)) \o (IF S.lat >= 0 THEN "N" ELSE "S") \o " datum:" \o datum
\* fields whose coordinates are plain local numbers cannot be located
Local(S, x) == x.crs = "" /\ (RefPt(x) = <<>> \/ (RefPt(x) = <<0, 0>> /\ S.lon = 0 /\ S.lat = 0 /\ S.dx = 0 /\ S.dy = 0))
Assumed(S, x, etrs) == IF x.crs # "" THEN x.crs
                       ELSE IF etrs /\ InEurope(S, x) THEN "EPSG:4258" ELSE "EPSG:4326"
Datum(S, x, etrs) ==
  LET c == Assumed(S, x, etrs) IN
  CASE c = "EPSG:4258" -> "ETRS89" [] c = "EPSG:4326" -> "WGS84"
    [] OTHER -> IF etrs /\ InEurope(S, x) THEN "ETRS89" ELSE "WGS84"
Moves == {"swath", "uswath", "aswath", "swaths", "uswaths", "aswaths", "strips", "ustrips", "ustrip", "route", "uroute", "path", "upath"}
Undoing == {"uswath", "uswaths", "ustrips", "ustrip", "uroute", "upath"}
Target(S, e) == IF e.op \in Undoing THEN S.f[e.a].prev ELSE e.crs
Throws(S, e) ==
  CASE e.op = "to" -> e.crs \in Unusable \/ S.f[e.a].crs = ""
    [] e.op = "undo" -> S.f[e.a].prev \in Unusable \/ S.f[e.a].crs = ""
    [] e.op = "utm" -> Local(S, S.f[e.a])
    [] e.op = "refgps" -> S.f[e.a].crs = ""
    [] e.op \in Moves -> Target(S, e) \in Unusable \/ S.f[e.a].crs = ""
    [] OTHER -> FALSE
ShiftP(p, d) == <<p[1] + d[1], p[2] + d[2]>>
ShiftR(r, d) == [i \in 1..Len(r) |-> ShiftP(r[i], d)]
ShiftC(c, d) == [i \in 1..Len(c) |-> ShiftR(c[i], d)]
Shift(cs, d) == [i \in 1..Len(cs) |-> ShiftC(cs[i], d)]
FDo(S, e) ==
  IF Throws(S, e) THEN S
  ELSE CASE e.op = "base" -> [S EXCEPT !.lon = e.lon, !.lat = e.lat, !.dx = e.dx, !.dy = e.dy]
    [] e.op = "make" -> [S EXCEPT !.f[e.a] = [id |-> e.id, crs |-> e.crs, prev |-> "", pts |-> e.pts, ref |-> e.ref, based |-> TRUE]]
    [] e.op = "to" -> [S EXCEPT !.f[e.a].prev = S.f[e.a].crs, !.f[e.a].crs = e.crs]
    [] e.op = "undo" -> [S EXCEPT !.f[e.a].prev = S.f[e.a].crs, !.f[e.a].crs = S.f[e.a].prev]
    [] e.op = "utm" -> [S EXCEPT !.f[e.a].prev = Assumed(S, S.f[e.a], e.etrs),
                                 !.f[e.a].crs = UtmCode(S, Datum(S, S.f[e.a], e.etrs))]
    [] e.op = "clone" -> [S EXCEPT !.f[e.a] = S.f[e.b]]
    \* the local cells are replaced; the reference point stays where it was
    [] e.op = "drop" -> [S EXCEPT !.f[e.a].pts = Tail(@), !.f[e.a].based = FALSE]
    [] e.op = "moved" -> [S EXCEPT !.f[e.a].pts = Shift(@, e.d), !.f[e.a].based = FALSE]
    \* the reference point is moved, and the field with it
    [] e.op = "moveref" -> [S EXCEPT !.f[e.a].pts = Shift(@, e.d)]
    [] e.op = "setid" -> [S EXCEPT !.f[e.a].id = e.s]
    [] e.op = "setprev" -> [S EXCEPT !.f[e.a].prev = e.s]
    [] OTHER -> S
\* --- observed positions ---
Tol == 12
At(p, g) == /\ g[1] >= p[1] * 10000 - Tol /\ g[1] <= p[1] * 10000 + Tol
            /\ g[2] >= p[2] * 10000 - Tol /\ g[2] <= p[2] * 10000 + Tol
AllAt(ps, gs) == Len(ps) = Len(gs) /\ \A i \in 1..Len(ps) : At(ps[i], gs[i])
RingsAt(c, g) == Len(c) = Len(g) /\ \A i \in 1..Len(c) : AllAt(c[i], g[i])
CellsAt(cs, g) == Len(cs) = Len(g) /\ \A i \in 1..Len(cs) : RingsAt(cs[i], g[i])
FieldOk(x, r) ==
  /\ r.id = x.id /\ r.crs = x.crs /\ r.prev = x.prev
  /\ r.empty = IsEmpty(x)
  /\ CellsAt(x.pts, r.gps) /\ CellsAt(x.pts, r.abs)
  /\ (RefPt(x) # <<>> /\ x.based => At(RefPt(x), r.ref))
  \* the local geometry starts at the reference point
  /\ (~IsEmpty(x) /\ x.based => r.first = <<0, 0>>)
SwathOk(s, r) == r.id = s.id /\ r.w = s.w /\ r.t = s.t /\ r.d = s.d /\ AllAt(s.p, r.p)
SwathsOk(v, r) == Len(v) = Len(r) /\ \A i \in 1..Len(v) : SwathOk(v[i], r[i])
StripsOk(v, r) == Len(v) = Len(r) /\ \A i \in 1..Len(v) : r[i].name = v[i].name /\ RingsAt(v[i].c, r[i].c)
\* a path given by n states; when its last state has a length, a final resting
\* state is appended so that the end point is kept too
PathOk(e, r) ==
  LET n == Len(e.states) IN
  /\ Len(r) = Len(e.p)
  /\ \A i \in 1..Len(r) :
       LET s == e.states[IF i <= n THEN i ELSE n] IN
       /\ At(e.p[i], r[i].p) /\ r[i].t = s.t /\ r[i].back = s.back /\ r[i].v = s.v
       /\ At(e.p[IF i < Len(r) THEN i + 1 ELSE i], r[i].e)
AnswerOk(S, e) ==
  CASE e.op \in {"swath", "uswath", "aswath"} -> SwathOk(e.s, e.r)
    [] e.op \in {"swaths", "uswaths", "aswaths"} -> SwathsOk(e.v, e.r)
    [] e.op \in {"strips", "ustrips", "ustrip"} -> StripsOk(e.v, e.r)
    [] e.op \in {"route", "uroute"} ->
         /\ Len(e.r.groups) = Len(e.groups) /\ Len(e.r.conns) = Len(e.conns)
         /\ \A i \in 1..Len(e.groups) : SwathsOk(e.groups[i], e.r.groups[i])
         /\ \A i \in 1..Len(e.conns) : AllAt(e.conns[i], e.r.conns[i])
    [] e.op \in {"path", "upath"} -> PathOk(e, e.r)
    [] e.op = "refgps" -> RefPt(S.f[e.a]) = <<>> \/ ~S.f[e.a].based \/ At(RefPt(S.f[e.a]), e.r)
    [] e.op = "code" ->
         /\ e.r.agree /\ e.r.utm = e.utm /\ e.r.epsg = e.epsg
         /\ (e.utm => /\ e.r.sys = e.zone \o e.h /\ e.r.zone = e.zone
                      /\ e.r.datum = (IF e.dat = "" THEN "etrs89" ELSE e.dat)
                      /\ e.r.hemi = (CASE e.h \in {"N", "n"} -> "+north" [] e.h \in {"S", "s"} -> "+south" [] OTHER -> ""))
         /\ e.r.num = (IF e.epsg THEN e.n ELSE -1)
    [] OTHER -> LET P == FDo(S, e) IN \A i \in 1..3 : FieldOk(P.f[i], e.r[i])
FVerdict(S, e) ==
  IF Throws(S, e) THEN IF e.x # "" THEN <<>> ELSE <<"C10", "an impossible change of coordinate system was not reported">>
  ELSE IF e.x # "" THEN <<"C10", "unexpected exception " \o e.x>>
  ELSE IF AnswerOk(S, e) THEN <<>>
  ELSE <<"C10", IF e.op = "code" THEN "a coordinate system code is taken apart wrongly"
                ELSE IF e.op \in Moves THEN "what was transformed with the field moved or lost attributes"
                ELSE "the field is not where or what it was">>
=============================================================================
