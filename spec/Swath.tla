------------------------------- MODULE Swath -------------------------------
(* One swath: the polyline to drive (lattice points, in driving order), its  *)
(* width (counted in halves), identifier, type, and whether it is driven in  *)
(* the direction it was created in.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MkSwath(p, w, id, t) == [p |-> p, w |-> w, id |-> id, t |-> t, d |-> TRUE]
NoSwath == MkSwath(<<>>, 0, 0, 0)
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
Reversed(s) == [s EXCEPT !.p = Rev(@), !.d = ~@]
Abs(x) == IF x < 0 THEN -x ELSE x
\* polylines run along the axes, so lengths and angles are exact
SegLen(a, b) == Abs(a[1] - b[1]) + Abs(a[2] - b[2])
RECURSIVE LineLen(_)
LineLen(p) == IF Len(p) < 2 THEN 0 ELSE SegLen(p[1], p[2]) + LineLen(Tail(p))
SegDeg(a, b) == CASE b[1] > a[1] -> 0 [] b[1] < a[1] -> 180
                  [] b[2] > a[2] -> 90 [] b[2] < a[2] -> 270 [] OTHER -> 0
StartP(s) == IF s.p = <<>> THEN <<0, 0>> ELSE s.p[1]
EndP(s) == IF s.p = <<>> THEN <<0, 0>> ELSE s.p[Len(s.p)]
InDeg(s) == IF s.p = <<>> THEN -1 ELSE IF Len(s.p) = 1 THEN 0 ELSE SegDeg(s.p[1], s.p[2])
OutDeg(s) == IF s.p = <<>> THEN -1 ELSE IF Len(s.p) = 1 THEN 0
             ELSE SegDeg(s.p[Len(s.p) - 1], s.p[Len(s.p)])
SameDir(a, b) == a.d = b.d
SameAs(a, b) == IF SameDir(a, b) THEN a ELSE Reversed(a)
OppTo(a, b) == IF SameDir(a, b) THEN Reversed(a) ELSE a
Shift(p, v) == <<p[1] + v[1], p[2] + v[2]>>
Moved(s, v) == [s EXCEPT !.p = [k \in DOMAIN @ |-> Shift(@[k], v)]]
\* the same strip of land, whichever way it is driven
EqSwath(a, b) ==
  /\ a.w = b.w /\ LineLen(a.p) = LineLen(b.p)
  /\ StartP(a) = IF SameDir(a, b) THEN StartP(b) ELSE EndP(b)
  /\ EndP(a) = IF SameDir(a, b) THEN EndP(b) ELSE StartP(b)
Before(p, r) == p[1] < r[1] \/ (p[1] = r[1] /\ p[2] < r[2])
Forward(s) == IF Before(EndP(s), StartP(s)) THEN Reversed(s) ELSE s

\* ---- operations on a few named swaths --------------------------------------
Refuses(e) == e.op \in {"new", "setW", "newWidth"} /\ e.w <= 0
SDo(S, e) ==
  IF Refuses(e) THEN S
  ELSE CASE e.op = "new" -> [S EXCEPT ![e.a] = MkSwath(e.p, e.w, e.id, e.t)]
    [] e.op = "newWidth" -> [S EXCEPT ![e.a] = MkSwath(<<>>, e.w, 0, 0)]
    [] e.op = "newEmpty" -> [S EXCEPT ![e.a] = NoSwath]
    [] e.op = "newLine" -> [S EXCEPT ![e.a] = MkSwath(e.p, 0, 0, 0)]
    [] e.op = "clone" -> [S EXCEPT ![e.a] = S[e.b]]
    [] e.op \in {"take", "move"} ->
         IF e.a = e.b /\ e.op = "take" THEN S
         ELSE [S EXCEPT ![e.a] = S[e.b], ![e.b] = NoSwath]
    [] e.op = "reverse" -> [S EXCEPT ![e.a] = Reversed(@)]
    [] e.op = "setW" -> [S EXCEPT ![e.a].w = e.w]
    [] e.op = "setId" -> [S EXCEPT ![e.a].id = e.id]
    [] e.op = "setType" -> [S EXCEPT ![e.a].t = e.t]
    [] e.op = "setDir" -> [S EXCEPT ![e.a].d = e.d]
    [] e.op = "setPath" -> [S EXCEPT ![e.a].p = e.p]
    [] e.op = "same" -> [S EXCEPT ![e.a] = SameAs(@, S[e.b])]
    [] e.op = "opp" -> [S EXCEPT ![e.a] = OppTo(@, S[e.b])]
    [] e.op = "moveTo" -> [S EXCEPT ![e.a] = Moved(@, e.v)]
    [] OTHER -> S
\* flat ends, square corners: the land covered is width times length as long
\* as the line bends at right angles and no stretch is shorter than its part
Straight(a, b) == (a[1] = b[1]) # (a[2] = b[2])
LandKnown(s) == LET n == Len(s.p) IN
  /\ n # 1
  /\ \A k \in 1..(n - 1) : Straight(s.p[k], s.p[k + 1])
       /\ (IF k \in {1, n - 1} THEN 4 ELSE 2) * SegLen(s.p[k], s.p[k + 1]) >= s.w
  /\ \A k \in 1..(n - 2) : (s.p[k][1] = s.p[k + 1][1]) # (s.p[k + 1][1] = s.p[k + 2][1])
  /\ n <= 4
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a > b THEN a ELSE b
Overlap(a0, a1, b0, b1) == Most(0, Least(a1, b1) - Most(a0, b0))
\* four times the land of one straight stretch inside a box
InBox(a, b, w, x) ==
  IF a[2] = b[2]
  THEN Overlap(Least(a[1], b[1]), Most(a[1], b[1]), x[1], x[3]) * Overlap(4 * a[2] - w, 4 * a[2] + w, 4 * x[2], 4 * x[4])
  ELSE Overlap(Least(a[2], b[2]), Most(a[2], b[2]), x[2], x[4]) * Overlap(4 * a[1] - w, 4 * a[1] + w, 4 * x[1], 4 * x[3])
RECURSIVE InBoxes(_, _)
InBoxes(s, bs) == IF bs = <<>> \/ s.p = <<>> THEN 0
                  ELSE InBox(s.p[1], s.p[2], s.w, bs[1]) + InBoxes(s, Tail(bs))
InsideRight(s, bs, r) ==
  (Len(s.p) = 0 \/ (Len(s.p) = 2 /\ LandKnown(s))) =>
    r["in"] = InBoxes(s, bs) /\ r.cov = r["in"] /\ r.all = 2 * s.w * LineLen(s.p)
GetRight(s, r) ==
  /\ r.p = s.p /\ r.gp = s.p /\ r.n = Len(s.p)
  /\ r.w = s.w /\ r.id = s.id /\ r.t = s.t /\ r.d = s.d
  /\ r.len = LineLen(s.p) /\ r.st = StartP(s) /\ r.en = EndP(s)
  /\ r.ia = InDeg(s) /\ r.oa = OutDeg(s)
  /\ LandKnown(s) => r.area = s.w * LineLen(s.p)
CmpRight(a, b, r) ==
  /\ r.eq = EqSwath(a, b) /\ r.ne = ~r.eq
  /\ r.lt = (a.id < b.id) /\ r.gt = (a.id > b.id)
  /\ r.le = (a.id < b.id \/ (a.id = b.id /\ EqSwath(a, b)))
  /\ r.ge = (a.id > b.id \/ (a.id = b.id /\ EqSwath(a, b)))
  /\ r.sd = SameDir(a, b)
SVerdict(S, e) ==
  IF Refuses(e) THEN IF e.x = "invalid_argument" THEN <<>>
                     ELSE <<"C08", "a width that is not positive was accepted">>
  ELSE IF e.x # "" THEN <<"C08", "unexpected exception " \o e.x>>
  ELSE CASE e.op = "get" ->
              IF GetRight(S[e.a], e.r) THEN <<>>
              ELSE <<"C08", "swath is not what its history made it">>
         [] e.op = "inside" ->
              IF InsideRight(S[e.a], e.boxes, e.r) THEN <<>>
              ELSE <<"C08", "land of the swath inside the field is wrong">>
         [] e.op = "cmp" ->
              IF CmpRight(S[e.a], S[e.b], e.r) THEN <<>>
              ELSE <<"C08", "swaths compare wrongly">>
         [] OTHER -> <<>>
=============================================================================
