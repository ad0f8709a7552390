------------------------------ MODULE TurnSim ------------------------------
(* Random histories of turns on one generator.  Earlier requests come back    *)
(* moved, mirrored and turned, after changes of the robot and the settings.   *)
EXTENDS Turn
CONSTANTS Depth
VARIABLES S, hist
R(X) == IF hist = <<>> THEN RandomElement(X) ELSE RandomElement(X)
Ang == R({45000 * i : i \in 0..7} \cup {30000 * i + 15000 : i \in 0..11})
Pose == <<10 * R(-500..500), 10 * R(-500..500)>>
Offs == {<<0, 0>>, <<0, 0>>, <<-3000, 70000>>, <<500000, 4600000>>}
TurnAt(d, t, a, b) == [op |-> "turn", p |-> Pose, d |-> d, t |-> t, a |-> Mod(a), b |-> Mod(b), off |-> R(Offs)]
NewTurn == LET d == R(1..Len(Dirs)) IN TurnAt(d, 10 * R({0, 1, 7, 20, 35, 60, 143}), R({Ang, Ang + Dirs[d][4]}), R({Ang, Ang + Dirs[d][4]}))
\* an earlier request once more: elsewhere, mirrored, or driven at another angle of the same family
Old == {i \in 1..Len(hist) : hist[i].op = "turn"}
Again(o) == LET f == {g \in 1..Len(Dirs) : Dirs[g][3] = Dirs[o.d][3]} g == R(f) mir == R(1..3) = 1
                ra == Mod(o.a - DirAng(o)) rb == Mod(o.b - DirAng(o))
                t == IF R(1..6) = 1 THEN R({o.t + 20, o.t + 10}) ELSE o.t
                ddd == IF t = 0 THEN 0 ELSE Dirs[g][4] IN
            TurnAt(g, t, ddd + (IF mir THEN -ra ELSE ra) + (IF R(1..6) = 1 THEN R({300, -300, 2000, 180000}) ELSE 0), ddd + (IF mir THEN -rb ELSE rb) + (IF R(1..6) = 1 THEN R({300, -300, 1000, 15000, 180000}) ELSE 0))
Simple == [op |-> "simple", d |-> 10 * R({0, 1, 7, 100, 175}), a |-> R(0..12) * 15000, b |-> R(0..23) * 15000]
Names == <<"turn", "turn", "turn", "again", "again", "again", "again", "again", "simple", "normal", "normal", "valid", "valid", "disc", "cache", "curv", "radius", "dcurv", "vel", "curv", "dcurv">>
VState(n) == <<100 * R(0..60), R({0, 0, 500, 2000, 3000, 0, -20, 0, 100, 0}), R(0..71) * 5000, 0>>
VLast == LET a == R({0, 90000, 180000, 270000}) IN <<100 * R(0..60), R({0, 0, 500, 500, 2000, -20, 100}), a, R({0, 500, 500, 540, 560, 5000})>>
RECURSIVE VStates(_)
VStates(n) == IF n = 0 THEN <<>> ELSE Append(VStates(n - 1), VState(n))
Pick ==
  LET o == IF hist = <<>> THEN "gen" ELSE Names[R(1..Len(Names))] IN
  CASE o = "gen" -> [op |-> o, e0 |-> R({0, 0, 0, 30, -30, 200}), e1 |-> R({0, 0, 0, 30, -30, 200, -70}), n |-> R({8, 8, 8, 8, 8, 8, 0, 1})]
    [] o = "again" -> IF Old = {} THEN NewTurn ELSE Again(hist[R(Old)])
    [] o = "turn" -> NewTurn
    [] o = "simple" -> Simple
    [] o = "normal" -> [NewTurn EXCEPT !.op = "normal"]
    [] o = "valid" -> LET n == R({0, 1, 2, 4, 4, 4}) z == VStates(n) s == IF n > 0 /\ R(1..2) = 1 THEN [z EXCEPT ![n] = VLast] ELSE z md == R({50, 50, 50, 210, 10}) IN
         [op |-> o, s |-> s, md |-> md, mr |-> R({100, 100, 100, 10}),
          dist |-> IF n = 0 THEN 1000 ELSE VEnd(s[n])[1] + R({0, 0, 0, 40, -40, 200, -200, 6000, -9}),
          b |-> IF n = 0 THEN 0 ELSE Mod(s[n][3] + 5000 * R({0, 0, 0, 1, -1, 2, -2, 5, -5, 6, -6, 36, 12}))]
    [] o = "disc" -> [op |-> o, v |-> R({10, 12, 50, 100, 2000})]
    [] o = "cache" -> [op |-> o, v |-> R({TRUE, TRUE, FALSE})]
    [] o = "curv" -> [op |-> o, v |-> R({100, 102, 500, 1000})]
    [] o = "radius" -> [op |-> o, v |-> R({2000, 4000, 5000})]
    [] o = "dcurv" -> [op |-> o, v |-> R({100, 102, 200, 600})]
    [] OTHER -> [op |-> o, v |-> R({500, 520, 1000, 3000})]
Init == S = T0 /\ hist = <<>>
Next == Len(hist) < Depth /\ \E o \in {Pick} : S' = TDo(S, o) /\ hist' = Append(hist, o)
Spec == Init /\ [][Next]_<<S, hist>>
Emit == Len(hist) = Depth => PrintT(ToJson([ops |-> hist]))
=============================================================================
