------------------------------ MODULE WholeMC ------------------------------
(* Design: what the stages give together, for boxes with a hole or a notch     *)
(* and all options.  Every square of the mainland is worked on by a track at    *)
(* most half a coverage width away unless it lies behind the last one; swaths   *)
(* stay on the mainland; the ring driven on is between mainland and border, and *)
(* the way from the end of a swath to it is never shorter than the gap between  *)
(* them, and straight on unless a corner of the ring is in front of it.         *)
EXTENDS Whole
VARIABLE o
Box(x, y, w, h) == <<<<x, y>>, <<x + w, y>>, <<x + w, y + h>>, <<x, y + h>>, <<x, y>>>>
Notch(w, h, a, b) == <<<<0, 0>>, <<w, 0>>, <<w, h>>, <<a + 2, h>>, <<a + 2, b>>, <<a, b>>, <<a, h>>, <<0, h>>, <<0, 0>>>>
FieldsMC == {<<<<Box(0, 0, w, h)>>>> : w \in {10}, h \in {12, 18}}
            \cup {<<<<Box(0, 0, 18, h), Box(8, b, 2, 2)>>>> : h \in {16}, b \in {4, 8}}
            \cup {<<<<Notch(18, 16, 8, b)>>>> : b \in {10}}
Init == o \in [cells : FieldsMC, hg : {"none", "const"}, n : 0..2, w : {2, 4}, cw : {2, 6}, d : 0..3]
Next == UNCHANGED o
F == Coarse(o.cells)
M == Mainland(o, F)
RingSquares == Ring(o, F)
AllLines == LET ps == Parts(M) IN UNION {LinesOf(ps[i], o.cw, o.d) : i \in 1..Len(ps)}
\* squares (of 2 m) on both sides of a line
Under(l) == IF o.d % 2 = 0 THEN {<<x, (l[1][2] - 1) \div 2>> : x \in (l[1][1] \div 2)..(l[2][1] \div 2 - 1)} ELSE {<<(l[1][1] - 1) \div 2, y>> : y \in (l[1][2] \div 2)..(l[2][2] \div 2 - 1)}
OnMainland == \A l \in AllLines : Under(l) \subseteq M
Once == \A k, l \in AllLines : k # l => Under(k) \cap Under(l) = {}
\* squares of a part beside one of its tracks are those a swath runs over
TracksFull == LET ps == Parts(M) IN \A i \in 1..Len(ps) : \A t \in TrackAt(ps[i], o.cw, o.d) :
  \A g \in ps[i] : (IF o.d % 2 = 0 THEN g[2] ELSE g[1]) = (t - 1) \div 2 => \E l \in LinesOf(ps[i], o.cw, o.d) : g \in Under(l)
\* no part of the mainland is farther than a whole width from a track, and only behind the last one farther than half a width
NoGap == LET ps == Parts(M) k == IF o.d % 2 = 0 THEN 2 ELSE 1 IN \A i \in 1..Len(ps) : LET ts == TrackAt(ps[i], o.cw, o.d) IN
  \A g \in ps[i] : \/ \E t \in ts : Abs(2 * g[k] + 1 - t) <= o.cw \div 2
                   \/ (IF o.d \in {0, 3} THEN \A t \in ts : t < 2 * g[k] + 1 ELSE \A t \in ts : t > 2 * g[k] + 1)
Between == Fine(M) \subseteq RingSquares /\ RingSquares \subseteq Fine(F)
\* straight on to the ring
StraightOn == M # {} => LET segs == TLCEval(Segs(RingSquares))
                    gap == IF Rings(o) = 0 THEN 0 ELSE Rings(o) * o.w - (2 * (o.n \div 2) + 1) * (o.w \div 2) IN
  \A l \in AllLines : \A p \in {l[1], l[2]} : LET g2 == D2(p, Proj(p, segs)) IN g2 >= gap * gap /\ (Good(p, segs) => g2 = gap * gap)
Inv == OnMainland /\ Once /\ TracksFull /\ NoGap /\ Between /\ StraightOn
Spec == Init /\ [][Next]_o
=============================================================================
