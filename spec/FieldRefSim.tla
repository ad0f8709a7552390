---------------------------- MODULE FieldRefSim ----------------------------
(* Random places on the globe, random fields there, random histories.        *)
EXTENDS FieldRef, Json
CONSTANTS Depth
VARIABLES S, hist
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)
P == <<R(1..150), R(1..150)>>
RECURSIVE Ps(_)
Ps(n) == IF n = 0 THEN <<>> ELSE <<P>> \o Ps(n - 1)
Rect(p, w, h) == <<p, <<p[1] + w, p[2]>>, <<p[1] + w, p[2] + h>>, <<p[1], p[2] + h>>, p>>
Tri(p, w, h) == <<p, <<p[1] + w, p[2]>>, <<p[1], p[2] + h>>, p>>
Cell == LET p == P w == R(10..40) h == R(10..40) IN
  CASE R(1..3) = 1 -> <<Tri(p, w, h)>>
    [] R(1..2) = 1 -> <<Rect(p, w, h), Rect(<<p[1] + 2, p[2] + 3>>, 4, 5)>>
    [] OTHER -> <<Rect(p, w, h)>>
Cells == IF R(1..3) = 1 THEN <<Cell, Cell>> ELSE <<Cell>>
LocalCells == << <<Rect(<<0, 0>>, R(10..40), R(10..40))>> >>
Hemi == IF S.lat >= 0 THEN "N" ELSE "S"
Two(z) == IF z < 10 THEN "0" \o ToString(z) ELSE ToString(z)
Codes == {"EPSG:4326", "EPSG:4258", "EPSG:3857", UtmCode(S, "WGS84"), UtmCode(S, "ETRS89"), UtmCode(S, "etrs89"),
          "EPSG:" \o (IF S.lat >= 0 THEN "326" ELSE "327") \o Two(Zone(S))}
AnyCode == IF R(1..9) = 1 THEN R(Unusable) ELSE R(Codes)
Sw == [id |-> R(0..9), w |-> R(1..12), t |-> R(0..1), d |-> R(BOOLEAN), p |-> Ps(R(2..4))]
Names == <<"base", "base", "make", "make", "make", "make", "make", "make", "to", "to", "to", "to", "to", "utm", "utm", "utm", "utm", "undo", "undo", "undo",
  "clone", "clone", "drop", "moved", "moveref", "setid", "setprev", "look", "refgps", "refgps", "swath", "uswath", "aswath", "swaths", "uswaths", "aswaths", "strips", "ustrips", "ustrip",
  "route", "uroute", "path", "path", "upath", "code", "code", "code">>
Code ==
  LET z == R(1..60) h == R({"N", "S", "n", "s"}) dat == R({"WGS84", "ETRS89", "etrs89", "wgs84", ""}) n == R({4326, 4258, 3857, 28992, 25831, 7, 32600 + z})
      zs == ToString(z) \o h  base == [op |-> "code", n |-> n, zone |-> ToString(z), h |-> h, dat |-> dat, utm |-> TRUE, epsg |-> FALSE, how |-> "crs", d |-> ""]
      full == (IF R(1..2) = 1 THEN "UTM:" ELSE "UTM: ") \o zs \o (IF dat = "" THEN "" ELSE " datum:" \o dat)
      k == R(1..7) IN
  CASE k = 1 -> [base EXCEPT !.utm = FALSE, !.epsg = TRUE, !.how = "epsg"] @@ [s |-> ""]
    [] k = 2 -> [base EXCEPT !.utm = FALSE, !.epsg = TRUE] @@ [s |-> "EPSG:" \o ToString(n)]
    [] k = 3 -> [base EXCEPT !.how = "set1"] @@ [s |-> full]
    [] k = 4 -> [base EXCEPT !.how = "set1", !.dat = ""] @@ [s |-> zs]
    [] k = 5 -> [base EXCEPT !.how = "set2", !.dat = (IF dat = "" THEN "WGS84" ELSE dat), !.d = (IF dat = "" THEN "WGS84" ELSE IF R(1..2) = 1 THEN dat ELSE "datum:" \o dat)]
                @@ [s |-> IF R(1..2) = 1 THEN zs ELSE "UTM:" \o zs]
    [] OTHER -> base @@ [s |-> full]
Groups(n) == [i \in 1..n |-> LET m == R(0..2) IN IF m = 0 THEN <<>> ELSE IF m = 1 THEN <<Sw>> ELSE <<Sw, Sw>>]
Conns(n) == [i \in 1..n |-> Ps(R(0..3))]
Pick ==
  LET o == IF hist = <<>> THEN "base" ELSE Names[R(1..Len(Names))] a == R(1..3) b == R(1..3) m == R(1..3) IN
  CASE o = "base" -> IF hist # <<>> THEN [op |-> "look"]
                     ELSE IF R(1..6) = 1 THEN [op |-> o, lon |-> 0, lat |-> 0, dx |-> 0, dy |-> 0]
                     ELSE IF R(1..3) = 1 THEN [op |-> o, lon |-> R(-18..33), lat |-> R({38, 39, 40, 41, 60}), dx |-> R({0, 9800}), dy |-> R({0, 9800})]
                     ELSE [op |-> o, lon |-> R(-180..179), lat |-> IF R(1..4) = 1 THEN R({-1, 0}) ELSE R(-79..79), dx |-> R({0, 9800}), dy |-> R({0, 9800})]
    [] o = "make" -> LET c == R({"EPSG:4326", "EPSG:4326", "EPSG:4258", "", "", UtmCode(S, "WGS84"), "EPSG:3857"})
                         k == R(1..8) IN
         IF k = 1 THEN [op |-> o, a |-> a, id |-> R({"", "f1", "x y"}), crs |-> c, pts |-> <<>>, ref |-> P]
         ELSE IF S.lon = 0 /\ S.lat = 0 /\ S.dx = 0 /\ S.dy = 0 /\ k = 2 THEN [op |-> o, a |-> a, id |-> "local", crs |-> "", pts |-> LocalCells, ref |-> P]
         ELSE [op |-> o, a |-> a, id |-> R({"", "f1", "x y"}), crs |-> c, pts |-> Cells, ref |-> P]
    [] o = "to" -> [op |-> o, a |-> a, crs |-> AnyCode]
    [] o = "utm" -> LET d == R(BOOLEAN) IN [op |-> o, a |-> a, dflt |-> d, etrs |-> (d \/ R(BOOLEAN))]
    [] o \in {"undo", "look", "refgps"} -> [op |-> o, a |-> a]
    [] o \in {"drop", "moved", "moveref"} ->
         LET A == {i \in 1..3 : ~IsEmpty(S.f[i]) /\ S.f[i].crs \in (Geo \cup IF S.lon = 0 THEN {} ELSE {""})}
             D == {i \in 1..3 : Len(S.f[i].pts) > 1 /\ (S.f[i].crs # "" \/ S.lon # 0)} IN
         IF o = "drop" THEN IF D = {} THEN [op |-> "look", a |-> a] ELSE [op |-> o, a |-> R(D)]
         ELSE IF A = {} THEN [op |-> "look", a |-> a]
         ELSE [op |-> o, a |-> R(A), d |-> <<R(-9..9), R(-9..9)>>]
    [] o = "clone" -> [op |-> o, a |-> a, b |-> b]
    [] o = "setid" -> [op |-> o, a |-> a, s |-> R({"", "new", "q"})]
    [] o = "setprev" -> [op |-> o, a |-> a, s |-> AnyCode]
    [] o \in {"swath", "uswath", "aswath"} -> [op |-> o, a |-> a, crs |-> AnyCode, s |-> Sw]
    [] o \in {"swaths", "uswaths", "aswaths"} -> [op |-> o, a |-> a, crs |-> AnyCode, v |-> IF m = 1 THEN <<Sw>> ELSE <<Sw, Sw, Sw>>]
    [] o \in {"strips", "ustrips", "ustrip"} ->
         LET s == [name |-> R({"", "north", "s2"}), c |-> Cell] IN
         [op |-> o, a |-> a, crs |-> AnyCode, v |-> IF m = 1 THEN <<s>> ELSE <<s, [name |-> "b", c |-> IF m = 3 THEN <<>> ELSE Cell]>>]
    [] o \in {"route", "uroute"} -> [op |-> o, a |-> a, crs |-> AnyCode, groups |-> Groups(b + m - 1), conns |-> Conns(b + m - 1 + R(0..1))]
    [] o \in {"path", "upath"} ->
         LET n == R(1..4) IN
         [op |-> o, a |-> a, crs |-> AnyCode, states |-> [i \in 1..n |-> [t |-> R(1..3), v |-> R(0..5), back |-> R(BOOLEAN)]],
          p |-> Ps(n + R(0..1))]
    [] OTHER -> Code
\* a driver reads these from the operation: undoing ops carry no target
Strip(o) == IF o.op \in Undoing THEN [k \in DOMAIN o \ {"crs"} |-> o[k]] ELSE o
Init == S = Start0 /\ hist = <<>>
Next == Len(hist) < Depth /\ \E o \in {Strip(Pick)} : S' = FDo(S, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<S, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
