----------------------------- MODULE BestAngle ------------------------------
(* The exhaustive search for the best driving angle (C18).  Candidates are    *)
(* the multiples of the step (in degrees) below a full turn; an objective     *)
(* gives every candidate a cost, to be minimised or maximised.                *)
EXTENDS Integers, Sequences
Candidates(deg) == 360 \div deg
\* what a search with costs c (already signed: lower is better) may answer
BestOf(deg, c, i) ==
  /\ i >= 0 /\ i * deg < 360
  /\ \A k \in 1..Candidates(deg) : c[i + 1] <= c[k]
Sign(max) == IF max THEN -1 ELSE 1
\* e.cost, as the objective must have been asked
Asked(e) ==
  LET r == e.r IN
  \A k \in 1..Len(r.cost) :
    r.cost[k] = IF e.op = "table"
      THEN Sign(e.max) * 1000 * (IF e.fast THEN e.costs[k] ELSE e.costs[(r.count[k] % Len(e.costs)) + 1])
      ELSE Sign(e.obj = "cov") * r.alone[k]
BStart == [step |-> 1000]
BDo(s, e) == IF e.op = "default" THEN s ELSE [s EXCEPT !.step = 1000 * e.deg]
BWhy(s, e) ==
  IF e.x # "" THEN <<"C18", "the search failed">>
  ELSE IF e.op = "default" THEN (IF e.r = s.step THEN <<>> ELSE <<"C18", "step angle">>)
  ELSE IF e.r.step # 1000 * e.deg THEN <<"C18", "step angle">>
  ELSE IF e.r.again # e.r.i THEN <<"C18", "the same search answers differently">>
  ELSE IF e.r.i < 0 \/ e.r.i * e.deg >= 360 THEN <<"C18", "not a candidate angle">>
  ELSE IF ~Asked(e) THEN <<"C18", "the cost of a candidate">>
  ELSE IF ~BestOf(e.deg, e.r.cost, e.r.i) THEN <<"C18", "another candidate is better">>
  ELSE IF e.r.best # e.r.bestat THEN <<"C18", "the swaths are not those of the best angle">>
  ELSE IF Len(e.r.all) # Len(e.v) \/ e.r.all # e.r.each THEN <<"C18", "each cell gets its own best angle">>
  ELSE <<>>
=============================================================================
