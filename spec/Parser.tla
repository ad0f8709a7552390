------------------------------- MODULE Parser -------------------------------
(* Importing field files.  A document is the value the file spells out:      *)
(*   [features |-> <<feature, ...>>]                                          *)
(*   feature = [properties |-> [Name |-> s], geometry |-> [coordinates |->    *)
(*              <<ring, ...>>]],  ring = <<point, ...>>, point = 2 or 3       *)
(* integers (eighths, or about 8e-9 degrees).  A member may be absent.  `how` says what happened to  *)
(* the file on disk: whole, missing, cut short or empty.                      *)
(* The state is the set of field lists the caller may now have: a document    *)
(* that turns out broken half way may already have delivered complete fields, *)
(* but only complete ones, in order.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Has(r, k) == k \in DOMAIN r
PtOk(p) == Len(p) \in {2, 3}
Pt3(p) == IF Len(p) = 3 THEN p ELSE <<p[1], p[2], 0>>
GoodRing(r) == \A k \in 1..Len(r) : PtOk(r[k])
HasShape(f) == Has(f, "geometry") /\ Has(f.geometry, "coordinates")
GoodCell(f) == HasShape(f) /\ \A k \in 1..Len(f.geometry.coordinates) : GoodRing(f.geometry.coordinates[k])
HasProp(f, k) == Has(f, "properties") /\ Has(f.properties, k)
\* a border closes where it began
Closed(r) == IF Len(r) = 0 \/ r[1] = r[Len(r)] THEN r ELSE Append(r, r[1])
RingOf(r) == Closed([k \in 1..Len(r) |-> Pt3(r[k])])
CellOf(f) == [k \in 1..Len(f.geometry.coordinates) |-> RingOf(f.geometry.coordinates[k])]
FieldOf(f) == [name |-> f.properties.Name, crs |-> "", cells |-> <<CellOf(f)>>]
GoodField(f) == GoodCell(f) /\ HasProp(f, "Name")
\* the features before the first broken one
RECURSIVE GoodPrefix(_, _)
GoodPrefix(fs, k) == IF k > Len(fs) \/ ~GoodField(fs[k]) THEN k - 1 ELSE GoodPrefix(fs, k + 1)
Fields(fs, n) == [k \in 1..n |-> FieldOf(fs[k])]
Whole(e) == e.how = "whole"
DocOk(e) == Whole(e) /\ Has(e.doc, "features")
\* GML: the document is described by e.g = [id, crs, rings, lacks]; `lacks` is
\* the element left out of the text ("" for none)
GmlOk(e) == Whole(e) /\ e.g.lacks = ""
GmlField(g) == [name |-> g.id, crs |-> g.crs, cells |-> << [k \in 1..Len(g.rings) |-> RingOf(g.rings[k])] >>]
Failing(e) ==
  CASE e.op = "json" -> ~DocOk(e) \/ \E k \in 1..Len(e.doc.features) : ~GoodField(e.doc.features[k])
    [] e.op = "cell" -> ~DocOk(e) \/ Len(e.doc.features) = 0 \/ ~GoodCell(e.doc.features[1])
    [] e.op = "swaths" -> ~DocOk(e) \/ \E k \in 1..Len(e.doc.features) :
         LET f == e.doc.features[k] IN
         ~(HasShape(f) /\ GoodRing(f.geometry.coordinates) /\ HasProp(f, "width") /\ HasProp(f, "path_id"))
    [] e.op = "strips" -> ~DocOk(e) \/ \E k \in 1..Len(e.doc.features) :
         ~(GoodCell(e.doc.features[k]) /\ HasProp(e.doc.features[k], "crop_id"))
    [] e.op \in {"gml", "gml1"} -> ~GmlOk(e)
    [] OTHER -> FALSE
NoFields == {<<>>}
FDo(S, e) ==
  CASE e.op = "clear" -> NoFields
    [] e.op = "all" -> {e.r}
    [] e.op = "json" ->
         IF ~DocOk(e) THEN S
         ELSE IF ~Failing(e) THEN {s \o Fields(e.doc.features, Len(e.doc.features)) : s \in S}
         ELSE LET m == GoodPrefix(e.doc.features, 1) IN
              {s \o Fields(e.doc.features, n) : s \in S, n \in 0..m}
    [] e.op = "gml" -> IF Failing(e) THEN S ELSE {Append(s, GmlField(e.g)) : s \in S}
    [] OTHER -> S
XY(r) == [k \in 1..Len(r) |-> <<r[k][1], r[k][2]>>]
FVerdict(S, e) ==
  IF Failing(e)
  THEN IF e.x # "" THEN <<>> ELSE <<"C23", "a broken or missing file was imported without complaint">>
  ELSE IF e.x # "" THEN <<"C23", "a good file was refused: " \o e.x>>
  ELSE LET fs == IF Has(e, "doc") THEN e.doc.features ELSE <<>> IN
  CASE e.op = "all" -> IF e.r \in S THEN <<>> ELSE <<"C23", "the imported fields are not those of the files, in order">>
    [] e.op = "json" -> IF e.r.rc = 0 THEN <<>> ELSE <<"C23", "importing a good file returned an error code">>
    [] e.op = "cell" -> IF e.r = CellOf(fs[1]) THEN <<>> ELSE <<"C23", "the imported cell is not the first one of the file">>
    [] e.op = "gml1" -> IF e.r = GmlField(e.g) THEN <<>> ELSE <<"C23", "the imported GML field is not what the file says">>
    [] e.op = "swaths" ->
         IF e.r = [k \in 1..Len(fs) |-> [p |-> XY(fs[k].geometry.coordinates),
                     w |-> fs[k].properties.width, id |-> fs[k].properties.path_id]]
         THEN <<>> ELSE <<"C23", "the imported swaths are not those of the file">>
    [] e.op = "strips" ->
         IF e.r = [k \in 1..Len(fs) |-> [name |-> fs[k].properties.crop_id, rings |-> CellOf(fs[k])]]
         THEN <<>> ELSE <<"C23", "the imported strips are not those of the file">>
    [] OTHER -> <<>>
=============================================================================
