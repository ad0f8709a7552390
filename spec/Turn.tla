-------------------------------- MODULE Turn --------------------------------
(* A turn generator (C11, C12).  The canonical turns of the generator under   *)
(* test are made by the driver: a turn of eight states whose geometry depends *)
(* on the request (distance, start and end angle) and whose section lengths   *)
(* spell out everything the turn may depend on: the curvature limits, the     *)
(* request, the discretisation and the speed for turns.  So an answer shows   *)
(* which request it belongs to.  Lengths are in mm, angles in thousandths of  *)
(* a degree, coordinates of answers in tenths of a mm.                        *)
(* State: the generator settings and the robot.                               *)
EXTENDS Integers, Sequences, TLC, Json
Full == 360000
\* directions as <<x, y, hypotenuse, angle>>
Dirs == << <<1, 0, 1, 0>>, <<0, 1, 1, 90000>>, <<-1, 0, 1, 180000>>, <<0, -1, 1, 270000>>,
           <<4, 3, 5, 36870>>, <<3, 4, 5, 53130>>, <<-3, 4, 5, 126870>>, <<-4, 3, 5, 143130>>,
           <<-4, -3, 5, 216870>>, <<-3, -4, 5, 233130>>, <<3, -4, 5, 306870>>, <<4, -3, 5, 323130>>,
           <<12, 5, 13, 22620>>, <<-5, 12, 13, 112620>>, <<-12, -5, 13, 202620>>, <<5, -12, 13, 292620>> >>
T0 == [disc |-> 10, cache |-> TRUE, curv |-> 500, dcurv |-> 200, vel |-> 1000, e0 |-> 0, e1 |-> 0, n |-> 8]
TDo(S, e) ==
  CASE e.op = "gen" -> [S EXCEPT !.disc = 10, !.cache = TRUE, !.e0 = e.e0, !.e1 = e.e1, !.n = e.n]
    [] e.op = "disc" -> [S EXCEPT !.disc = e.v]
    [] e.op = "cache" -> [S EXCEPT !.cache = e.v]
    [] e.op = "curv" -> [S EXCEPT !.curv = e.v]
    [] e.op = "radius" -> [S EXCEPT !.curv = 1000000 \div e.v]
    [] e.op = "dcurv" -> [S EXCEPT !.dcurv = e.v]
    [] e.op = "vel" -> [S EXCEPT !.vel = e.v]
    [] OTHER -> S
Abs(x) == IF x < 0 THEN -x ELSE x
Mod(a) == a % Full
\* angles equal up to two thousandths of a degree
AngEq(a, b) == LET d == Mod(a - b) IN d <= 3 \/ d >= Full - 3
Near(x, y, t) == Abs(x - y) <= t
\* --- the request a pair of poses stands for ---
DirAng(e) == IF e.t = 0 THEN 0 ELSE Dirs[e.d][4]
Dist(e) == e.t * Dirs[e.d][3]
Rel(e) == Mod(e.a - DirAng(e))
\* mirrored when the turn starts to the right; either way when exactly along the line
MayMirror(e) == Rel(e) >= 180000 - 3 \/ Rel(e) <= 3
MayPlain(e) == Rel(e) <= 180000 + 3 \/ Rel(e) >= Full - 3
Req(e, m) == [d |-> Dist(e), a |-> IF m THEN Mod(-Rel(e)) ELSE Rel(e),
              b |-> LET r == Mod(e.b - DirAng(e)) IN IF m THEN Mod(-r) ELSE r]
\* --- the canonical turn for a request ---
CX(S, q, k) == CASE k = 0 -> 0 [] k = S.n - 1 -> q.d [] OTHER -> 1000 * k
CY(S, q, k) == CASE k = 0 -> S.e0 [] k = S.n - 1 -> S.e1 [] OTHER -> 1000 * ((k * k) % 5)
CA(S, q, k) == CASE k = 0 -> q.a [] k = S.n - 1 -> q.b [] OTHER -> Mod(q.a + 30000 * k)
CL(S, q, k) == CASE k = 0 -> S.curv [] k = 1 -> S.dcurv [] k = 2 -> q.d [] k = 5 -> S.disc [] OTHER -> 0
CD(k) == IF k % 3 = 1 THEN -1 ELSE 1
\* the state answered for canonical state k: rigidly moved, the ends put exactly on the poses
Placed(S, e, q, m, k, r) ==
  LET c == Dirs[e.d]
      ux == IF e.t = 0 THEN 1 ELSE c[1]  uy == IF e.t = 0 THEN 0 ELSE c[2]  h == IF e.t = 0 THEN 1 ELSE c[3]
      y == IF m THEN -CY(S, q, k) ELSE CY(S, q, k)
      x == CX(S, q, k)
      atS == k = 0 /\ Abs(S.e0) < 50
      atE == k = S.n - 1 /\ Abs(S.e1) < 50
      ang == IF m THEN -CA(S, q, k) ELSE CA(S, q, k) IN
  /\ IF atS THEN Near(r[1], 10 * e.p[1], 1) /\ Near(r[2], 10 * e.p[2], 1)
     ELSE IF atE THEN Near(r[1], 10 * (e.p[1] + e.t * c[1]), 1) /\ Near(r[2], 10 * (e.p[2] + e.t * c[2]), 1)
     ELSE /\ Near(h * (r[1] - 10 * e.p[1]), 10 * (x * ux - y * uy), h)
          /\ Near(h * (r[2] - 10 * e.p[2]), 10 * (x * uy + y * ux), h)
  /\ r[3] >= 0 /\ r[3] <= Full /\ AngEq(r[3], ang + DirAng(e))
Attrs(S, q, k, r) ==
  /\ Near(r[4], CASE k = 3 -> q.a [] k = 4 -> q.b [] OTHER -> CL(S, q, k), IF k \in {3, 4} THEN 3 ELSE 0) \/ (k = 3 /\ AngEq(r[4], q.a)) \/ (k = 4 /\ AngEq(r[4], q.b))
  /\ r[5] = CD(k) /\ r[6] = 2 /\ r[7] = S.vel
TurnOk(S, e, r) ==
  IF S.n <= 1 THEN r = <<>>
  ELSE /\ Len(r) = S.n
       /\ \E m \in BOOLEAN :
            /\ IF m THEN MayMirror(e) ELSE MayPlain(e)
            /\ LET q == Req(e, m) IN \A k \in 0..(S.n - 1) : Placed(S, e, q, m, k, r[k + 1]) /\ Attrs(S, q, k, r[k + 1])
\* the canonical turn asked for directly
SimpleOk(S, e, r) ==
  LET q == [d |-> e.d, a |-> e.a, b |-> e.b] IN
  /\ Len(r) = S.n
  /\ \A k \in 0..(S.n - 1) : LET s == r[k + 1] IN
       /\ Near(s[1], 10 * CX(S, q, k), 1) /\ Near(s[2], 10 * CY(S, q, k), 1) /\ AngEq(s[3], CA(S, q, k)) /\ Attrs(S, q, k, s)
SameState(x, y) == Near(x[1], y[1], 1) /\ Near(x[2], y[2], 1) /\ AngEq(x[3], y[3]) /\ Near(x[4], y[4], 1) /\ x[5] = y[5] /\ x[6] = y[6] /\ x[7] = y[7]
Same(x, y) == Len(x) = Len(y) /\ \A k \in 1..Len(x) : SameState(x[k], y[k])
\* a normalised turn: distance, direction, start angle in the upper half, end angle, mirrored
NormalOk(e, r) ==
  /\ Near(r[1], Dist(e), 0) /\ AngEq(r[2], DirAng(e))
  /\ r[5] \in {0, 1}
  /\ (IF r[5] = 1 THEN MayMirror(e) ELSE MayPlain(e))
  /\ LET q == Req(e, r[5] = 1) IN AngEq(r[3], q.a) /\ AngEq(r[4], q.b)
  /\ \A i \in {2, 3, 4} : r[i] >= 0 /\ r[i] <= Full
  /\ r[3] <= 180000
\* --- validity: above the border, ending close to the wanted pose ---
\* largest difference of angles (multiples of 5 degrees) allowed by the error bound on the cosine
AngBound(c) == CASE c = 100 -> 25000 [] c = 10 -> 5000 [] OTHER -> 60000
\* where the last state ends (its length counts only along the axes)
VEnd(s) == CASE s[3] = 0 -> <<s[1] + s[4], s[2], s[3]>> [] s[3] = 90000 -> <<s[1], s[2] + s[4], s[3]>>
             [] s[3] = 180000 -> <<s[1] - s[4], s[2], s[3]>> [] s[3] = 270000 -> <<s[1], s[2] - s[4], s[3]>> [] OTHER -> <<s[1], s[2], s[3]>>
ValidOk(e, r) ==
  LET n == Len(e.s) last == VEnd(e.s[n])
      dev == LET d == Mod(last[3] - e.b) IN IF d > 180000 THEN Full - d ELSE d IN
  r = IF n = 0 THEN FALSE
      ELSE /\ \A k \in 1..n : e.s[k][2] > -e.md
           /\ Abs(last[1] - e.dist) < e.md /\ Abs(last[2]) < e.md
           /\ dev <= AngBound(e.mr)
TWhy(S, e) ==
  IF e.x # "" THEN <<"C12", "unexpected exception " \o e.x>>
  ELSE CASE e.op \in {"turn", "simple"} ->
              LET ok == IF e.op = "turn" THEN TurnOk(S, e, e.r.fresh) ELSE SimpleOk(S, e, e.r.fresh) IN
              IF ~Same(e.r.turn, e.r.fresh) THEN <<"C11", "the turn differs from the one a new generator makes">>
              ELSE IF ok THEN <<>> ELSE <<"C12", "the turn is not the canonical one moved onto the poses">>
         [] e.op = "normal" -> IF NormalOk(e, e.r) THEN <<>> ELSE <<"C12", "the normalised turn is wrong">>
         [] e.op = "valid" -> IF ValidOk(e, e.r) THEN <<>> ELSE <<"C12", "a turn is taken for valid or invalid wrongly">>
         [] OTHER -> LET T == TDo(S, e) IN
              IF e.r = [disc |-> T.disc, cache |-> T.cache] THEN <<>> ELSE <<"C11", "the settings of the generator are not what was set">>
=============================================================================
