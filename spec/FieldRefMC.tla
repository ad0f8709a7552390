------------------------------ MODULE FieldRefMC -----------------------------
(* All short histories of one field (and its clone) through coordinate        *)
(* systems (C10): what never moves it, what undoes what, what failing keeps.  *)
EXTENDS FieldRef
CONSTANTS Depth
VARIABLES S, n
Sq == << << <<0, 0>>, <<4, 0>>, <<4, 4>>, <<0, 0>> >> >>
Sq2 == << << <<6, 6>>, <<8, 6>>, <<8, 8>>, <<6, 6>> >> >>
Codes == {"EPSG:4326", "UTM:31N datum:etrs89", "FOO"}
Bases == {[op |-> "base", lon |-> 5, lat |-> 51, dx |-> 3, dy |-> 7], [op |-> "base", lon |-> 0, lat |-> 0, dx |-> 0, dy |-> 0], [op |-> "base", lon |-> -60, lat |-> -33, dx |-> 0, dy |-> 0]}
Ops == {[op |-> "to", a |-> 1, crs |-> c] : c \in Codes} \cup {[op |-> "undo", a |-> 1]}
   \cup {[op |-> "utm", a |-> 1, etrs |-> b] : b \in BOOLEAN}
   \cup {[op |-> "clone", a |-> 2, b |-> 1], [op |-> "clone", a |-> 1, b |-> 2], [op |-> "moved", a |-> 1, d |-> <<2, -1>>], [op |-> "moveref", a |-> 1, d |-> <<3, 0>>], [op |-> "setid", a |-> 1, s |-> "x"]}
   \cup {[op |-> "make", a |-> 1, id |-> "f", crs |-> c, pts |-> p, ref |-> <<1, 1>>] : c \in {"", "EPSG:4326"}, p \in {<<>>, <<Sq>>, <<Sq, Sq2>>}}
Init == n = 0 /\ S \in {FDo(Start0, b) : b \in Bases}
Next == n < Depth /\ n' = n + 1 /\ \E o \in Ops : S' = FDo(S, o)
Spec == Init /\ [][Next]_<<S, n>>
Undo == [op |-> "undo", a |-> 1]
F == S.f[1]
\* changes of coordinate system move nothing, and touch no other field
Stays == \A o \in Ops : o.op \in {"to", "undo", "utm"} => LET P == FDo(S, o) IN
  P.f[1].pts = F.pts /\ P.f[1].ref = F.ref /\ P.f[1].id = F.id /\ P.f[2] = S.f[2] /\ P.f[3] = S.f[3]
\* a change can be undone, and the undoing too
Undone == \A c \in Codes : LET o == [op |-> "to", a |-> 1, crs |-> c] P == FDo(S, o) IN
  ~Throws(S, o) => ~Throws(P, Undo) \/ F.crs \in Unusable
UndoneIs == ~Throws(S, Undo) => LET P == FDo(S, Undo) IN F.crs \in Unusable \/ (~Throws(P, Undo) /\ FDo(P, Undo) = S)
\* what fails changes nothing
Keeps == \A o \in Ops : Throws(S, o) => FDo(S, o) = S
\* once in UTM the zone is that of the place, whatever was asked before, and asking again keeps it
Zoned == \A b \in BOOLEAN : LET o == [op |-> "utm", a |-> 1, etrs |-> b] P == FDo(S, o) IN
  ~Throws(S, o) => \E d \in {"ETRS89", "WGS84"} : P.f[1].crs = UtmCode(S, d)
Alike == \A o \in Ops : (o.op \in {"to", "undo", "utm"} /\ S.f[1] = S.f[2]) => LET P == FDo(S, o) Q == FDo(FDo(S, o), [o EXCEPT !.a = 2]) IN Q.f[1] = P.f[1] /\ Q.f[2] = P.f[1]
=============================================================================
