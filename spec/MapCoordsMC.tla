----------------------------- MODULE MapCoordsMC -----------------------------
(***************************************************************************)
(* A unit walks over the map in steps of any length; every position has one   *)
(* cell and one nearest terrain point, they change only when a border is      *)
(* crossed, and going back and forth between the systems loses nothing.      *)
(***************************************************************************)
EXTENDS MapCoords, Json, IOUtils
Steps == {1, 2047, 2048, 2049, 4095, 4096, 4097, 300}
Limit == 4 * Unit
VARIABLES k, walked
Init == k \in {0, 1, 2047, 2048, 2049, 4095} /\ walked = 0
Next == walked < 4 /\ walked' = walked + 1 /\ \E s \in Steps : k' \in {k + s, k - s} /\ k' \in 0..Limit
Spec == Init /\ [][Next]_<<k, walked>>
Distance(a, b) == IF a < b THEN b - a ELSE a - b
Within == Position(CellAt(k)) <= k /\ k < Position(CellAt(k) + 1)
Nearest == \A t \in 0..6 : Distance(Position(PointAt(k)), k) < Distance(Position(t), k) \/ (Distance(Position(PointAt(k)), k) = Distance(Position(t), k) /\ t <= PointAt(k))
BackAndForth == \A c \in -3..6 : CellAt(Centre(c)) = c /\ PointAt(Position(c)) = c
Corner == PointAt(Centre(CellAt(k))) = CellAt(k) + 1 /\ PointAt(k) \in {CellAt(k), CellAt(k) + 1}
Monotone == [][k <= k' => CellAt(k) <= CellAt(k') /\ PointAt(k) <= PointAt(k')]_k
Shift == \A e \in -2..3 : InPlayable(PointAt(k), e) + e = PointAt(k)
Vector == PrintT("@VEC " \o ToString(k))
=============================================================================
