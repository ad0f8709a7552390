----------------------------- MODULE HeadlandMC ------------------------------
(* Laws of shrinking and growing regions of squares (C16), over all regions   *)
(* made of blocks of squares.                                                 *)
EXTENDS Headland
CONSTANTS Side, Block
VARIABLES bs, todo
Blocks == (0..(Side - 1)) \X (0..(Side - 1))
Init == bs = {} /\ todo = Blocks
Next == todo # {} /\ LET b == CHOOSE x \in todo : TRUE IN todo' = todo \ {b} /\ bs' \in {bs, bs \cup {b}}
Spec == Init /\ [][Next]_<<bs, todo>>
Whole == todo = {}
F == {g \in Grid : <<(g[1] - 8) \div Block, (g[2] - 8) \div Block>> \in bs}
Sh == [w \in 0..3 |-> Shrunk(F, w)]
\* what is left after a width is what has the square of that width around it in the field
Ball(g, w) == {<<g[1] + x, g[2] + y>> : x \in (-w)..w, y \in (-w)..w}
Meaning == Whole => \A w \in 0..2 : Sh[w] = {g \in F : Ball(g, w) \subseteq F}
Zero == Whole => Sh[0] = F
\* narrower headlands leave more; two headlands are one of both widths
Monotone == Whole => \A w \in 1..3 : Sh[w] \subseteq Sh[w - 1]
Compose == Whole => \A a, b \in 1..2 : a + b <= 3 => Shrunk(Sh[a], b) = Sh[a + b]
\* growing what is left stays inside the field and is not shrunk below it
Inside == Whole => \A w \in 1..2 : LET G == Grown(Sh[w], w) IN G \subseteq F /\ Sh[w] \subseteq G /\ Shrunk(G, w) = Sh[w]
\* rings: as many as asked for, each inside the one further out, both orders inside the field
Nested == Whole => LET o == OutIn(F, 2, 2) i == InOut(F, 2, 2) IN
  /\ Len(o) = 2 /\ Len(i) = 2 /\ o[2] \subseteq o[1] /\ o[1] \subseteq F /\ i[1] \subseteq i[2] /\ i[2] \subseteq o[1] /\ i[1] = o[2]
=============================================================================
