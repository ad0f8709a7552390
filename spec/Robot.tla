------------------------------- MODULE Robot -------------------------------
(* Robot parameters, counted in eighths.  kind says how the turning limit    *)
(* was last given: as a radius or as a curvature.                            *)
EXTENDS Integers, Sequences, TLC
MkRobot(w, c, k, dk) ==
  [name |-> "", w |-> w, cov |-> IF c = 0 THEN w ELSE c, cruise |-> 8, turn |-> -1,
   kind |-> "curv", lim |-> k, diff |-> dk]
\* the default robot has width 0 and a curvature change of 0.3: noted as -1
Default == [MkRobot(0, 0, 8, -1) EXCEPT !.cov = 0]
Ab(x) == IF x < 0 THEN -x ELSE x
Invalid(e) == \/ e.op \in {"make1", "make2", "make4"} /\ e.w <= 0
              \/ e.op \in {"make2", "make4"} /\ e.c < 0
BDo(S, e) ==
  IF Invalid(e) THEN S
  ELSE CASE e.op = "new" -> [S EXCEPT ![e.a] = Default]
    [] e.op = "make1" -> [S EXCEPT ![e.a] = MkRobot(e.w, 0, 8, -1)]
    [] e.op = "make2" -> [S EXCEPT ![e.a] = MkRobot(e.w, e.c, 8, -1)]
    [] e.op = "make4" -> [S EXCEPT ![e.a] = MkRobot(e.w, e.c, e.k, e.dk)]
    [] e.op \in {"copy", "assign", "move"} -> [S EXCEPT ![e.a] = S[e.b]]
    [] e.op = "name" -> [S EXCEPT ![e.a].name = e.s]
    [] e.op = "width" -> [S EXCEPT ![e.a].w = e.v]
    [] e.op = "cov" -> [S EXCEPT ![e.a].cov = e.v]
    [] e.op = "cruise" -> [S EXCEPT ![e.a].cruise = e.v]
    [] e.op = "turn" -> [S EXCEPT ![e.a].turn = e.v]
    [] e.op = "radius" -> [S EXCEPT ![e.a].kind = "rad", ![e.a].lim = Ab(e.v)]
    [] e.op = "curv" -> [S EXCEPT ![e.a].kind = "curv", ![e.a].lim = Ab(e.v)]
    [] e.op = "diff" -> [S EXCEPT ![e.a].diff = Ab(e.v)]
    [] OTHER -> S
\* v eighths in thousandths, and the reciprocal of that
Thou(v) == 125 * v
Recip(v) == 8000 \div v          \* 1 / (v/8), in thousandths
RoughRecip(v, r) == (v = 0 /\ r = -1) \/ (v > 0 /\ r >= Recip(v) - 1 /\ r <= Recip(v) + 2)
BRight(s, r) ==
  /\ r.name = s.name /\ r.w = s.w /\ r.cov = s.cov /\ r.cruise = s.cruise
  /\ r.turn = (IF s.turn = -1 THEN s.cruise ELSE s.turn)
  /\ r.diff = (IF s.diff = -1 THEN 300 ELSE Thou(s.diff))
  /\ IF s.kind = "curv"
     THEN r.curv = Thou(s.lim) /\ RoughRecip(s.lim, r.rad)
     ELSE r.rad = Thou(s.lim) /\ RoughRecip(s.lim, r.curv)
  /\ (s.lim # 0 => r.prod = 1000)
BVerdict(S, e) ==
  IF Invalid(e) THEN IF e.x # "" THEN <<>> ELSE <<"C24", "an impossible width was accepted">>
  ELSE IF e.x # "" THEN <<"C24", "unexpected exception " \o e.x>>
  ELSE IF e.op = "get" /\ ~BRight(S[e.a], e.r)
       THEN <<"C24", "robot parameters are not what was last set">> ELSE <<>>
=============================================================================
