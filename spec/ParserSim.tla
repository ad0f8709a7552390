----------------------------- MODULE ParserSim -----------------------------
(* Random sessions of imports: whole, broken and missing files mixed.        *)
EXTENDS Parser, Json
CONSTANTS Depth
VARIABLES hist
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)
Num == IF R(1..3) = 1 THEN R(-40..40) ELSE R(-8000..8000)
Pt == IF R(1..4) = 1 THEN <<Num, Num, R(-80..80)>> ELSE <<Num, Num>>
\* now and then a point right beside the one before
Beside(p) == [p EXCEPT ![1] = @ + R(-6..6), ![2] = @ + R(-6..6)]
RECURSIVE Pts(_)
Pts(n) == IF n = 0 THEN <<>> ELSE LET r == Pts(n - 1) p == Pt IN
  IF r # <<>> /\ R(1..6) = 1 THEN <<Beside(r[1])>> \o r ELSE <<p>> \o r
Ring0 == Pts(IF R(1..20) = 1 THEN R(7..40) ELSE R(3..6))
Ring == LET r == Ring0 IN IF R(1..3) = 1 THEN r ELSE Append(r, r[1])
Ring2 == LET r == Ring0 IN LET f == [k \in 1..Len(r) |-> <<r[k][1], r[k][2]>>] IN Append(f, f[1])
RECURSIVE Many(_, _)
Item(kind) == CASE kind = "ring" -> Ring [] kind = "gring" -> Ring2 [] OTHER -> <<>>
Many(kind, n) == IF n = 0 THEN <<>> ELSE <<Item(kind)>> \o Many(kind, n - 1)
Nam == R({"A", "", "test parcel", "field 12", "B", "Winter barley"})
Geo(cs) == [geometry |-> [coordinates |-> cs], type |-> "Feature"]
Feature == Geo(Many("ring", R(IF R(1..8) = 1 THEN 4..9 ELSE {1, 2, 3}))) @@ [properties |-> [Name |-> Nam, Description |-> ""]]
Strip == Geo(Many("ring", R(IF R(1..8) = 1 THEN 3..8 ELSE {1, 2}))) @@ [properties |-> [crop_id |-> Nam]]
SwathF == Geo(Pts(R(IF R(1..8) = 1 THEN 5..30 ELSE {2, 3, 4}))) @@ [properties |-> [width |-> R(1..40), path_id |-> R(0..99)]]
F(kind) == CASE kind = "strips" -> Strip [] kind = "swaths" -> SwathF [] OTHER -> Feature
RECURSIVE Fs(_, _)
Fs(kind, n) == IF n = 0 THEN <<>> ELSE <<F(kind)>> \o Fs(kind, n - 1)
Less(r, k) == [x \in DOMAIN r \ {k} |-> r[x]]
BadPt(p) == IF R(1..2) = 1 THEN <<p[1]>> ELSE <<>>
Spoil(kind, f) ==
  LET k == R(1..5) IN
  CASE k = 1 -> Less(f, "geometry")
    [] k = 2 -> [f EXCEPT !.geometry = Less(@, "coordinates") @@ [type |-> "Polygon"]]
    [] k = 3 -> Less(f, "properties")
    [] k = 4 -> [f EXCEPT !.properties = Less(@, R(DOMAIN @)) @@ [other |-> "x"]]
    [] OTHER -> IF kind = "swaths"
       THEN LET i == R(1..Len(f.geometry.coordinates)) IN [f EXCEPT !.geometry.coordinates[i] = BadPt(@)]
       ELSE LET i == R(1..Len(f.geometry.coordinates)) j == R(1..Len(f.geometry.coordinates[i])) IN
            [f EXCEPT !.geometry.coordinates[i][j] = BadPt(@)]
Doc(kind) ==
  LET n == R(IF R(1..10) = 1 THEN 5..14 ELSE 0..4) fs == Fs(kind, n) b == R(1..6) IN
  IF b = 1 /\ n > 0 THEN LET i == R(1..n) IN [type |-> "FeatureCollection", features |-> [fs EXCEPT ![i] = Spoil(kind, fs[i])]]
  ELSE IF b = 2 /\ R(1..3) = 1 THEN [type |-> "FeatureCollection"]
  ELSE [type |-> "FeatureCollection", features |-> fs]
How == LET k == R(1..14) IN CASE k = 1 -> "missing" [] k = 2 -> "cut" [] k = 3 -> "empty" [] OTHER -> "whole"
\* --- GML text ---
Frac(m) == <<"", ".125", ".25", ".375", ".5", ".625", ".75", ".875">>[m + 1]
Dec(v) == IF v < 0 THEN "-" \o ToString((-v) \div 8) \o Frac((-v) % 8) ELSE ToString(v \div 8) \o Frac(v % 8)
RECURSIVE Coords(_, _)
Coords(r, k) == (IF k = 1 THEN "" ELSE " ") \o Dec(r[k][1]) \o "," \o Dec(r[k][2]) \o (IF k = Len(r) THEN "" ELSE Coords(r, k + 1))
El(name, body) == "<" \o name \o ">" \o body \o "</" \o name \o ">"
Bound(name, r, lacks) ==
  LET c == IF lacks = "coordinates" THEN "" ELSE
           IF lacks = "numbers" THEN El("gml:coordinates", "1,2 a,b " \o Coords(r, 1))
           ELSE IF lacks = "text" THEN El("gml:coordinates", "")
           ELSE El("gml:coordinates", Coords(r, 1))
      g == IF lacks = "ring" THEN c ELSE El("gml:LinearRing", c) IN
  IF lacks = "outer" /\ name = "gml:outerBoundaryIs" THEN "" ELSE El(name, g)
RECURSIVE Holes(_, _)
Holes(rs, k) == IF k > Len(rs) THEN "" ELSE Bound("gml:innerBoundaryIs", rs[k], "") \o Holes(rs, k + 1)
GmlText(g) ==
  LET inner == Bound("gml:outerBoundaryIs", g.rings[1], g.lacks) \o Holes(g.rings, 2)
      poly == IF g.lacks = "polygon" THEN inner
              ELSE "<gml:Polygon" \o (IF g.lacks = "srs" THEN "" ELSE " srsName=\"" \o g.crs \o "\"") \o ">" \o inner \o "</gml:Polygon>"
      geom == IF g.lacks = "geometry" THEN poly ELSE El("geometry", poly)
      field == IF g.lacks = "field" THEN geom ELSE "<Field area=\"1\" id=\"boundary\">" \o geom \o "</Field>"
  IN "<GAOS_parcel xmlns:gml=\"http://www.opengis.net/gml\"" \o (IF g.id = "" THEN "" ELSE " id=\"" \o g.id \o "\"") \o ">" \o field \o "</GAOS_parcel>"
Gml == LET l == IF R(1..4) = 1 THEN R({"field", "geometry", "polygon", "srs", "outer", "ring", "coordinates", "numbers", "text"}) ELSE "" IN
  [id |-> Nam, crs |-> R({"EPSG:4258", "EPSG:4326", "EPSG:28992", "EPSG:32631", "UTM:32N datum:etrs89"}),
   rings |-> Many("gring", R(IF R(1..8) = 1 THEN 4..9 ELSE {1, 2, 3})), lacks |-> l]
Names == <<"json", "json", "json", "all", "all", "all", "clear", "cell", "gml", "gml", "gml1", "swaths", "strips">>
Fine == hist # <<>> /\ hist[1].fine
Pick == LET n == Names[R(1..Len(Names))] o == IF Fine /\ n \in {"gml", "gml1"} THEN "json" ELSE n IN
  IF hist = <<>> THEN [op |-> "unit", how |-> "missing", fine |-> R({TRUE, FALSE, FALSE})] ELSE
  CASE o \in {"all", "clear"} -> [op |-> o, how |-> "missing"]
    [] o \in {"gml", "gml1"} -> LET g == Gml IN [op |-> o, how |-> How, g |-> g, text |-> GmlText(g)]
    [] OTHER -> [op |-> o, how |-> How, doc |-> Doc(o)]
Init == hist = <<>>
Next == Len(hist) < Depth /\ \E o \in {Pick} : hist' = Append(hist, o)
Spec == Init /\ [][Next]_hist
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> Append(hist, [op |-> "all", how |-> "missing"])]))
=============================================================================
