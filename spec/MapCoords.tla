------------------------------ MODULE MapCoords ------------------------------
(***************************************************************************)
(* The coordinate systems of a map along one axis.  A position is counted in  *)
(* 4096ths, the unit that the game itself uses.  Terrain points lie on whole  *)
(* positions; cell c reaches from c to c + 1, its centre is at c + 1/2.      *)
(***************************************************************************)
EXTENDS Prelude
Unit == 4096
CellAt(k) == k \div Unit                         \* the cell that a position lies in
PointAt(k) == (k + Unit \div 2) \div Unit        \* the nearest terrain point, the upper one of two
Centre(c) == c * Unit + Unit \div 2
Position(t) == t * Unit
InPlayable(t, edge) == t - edge                  \* a terrain point seen from the first one of the playable area
=============================================================================
