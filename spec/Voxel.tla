------------------------------- MODULE Voxel -------------------------------
(* A voxel grid is a set of cells.  Points are given in subdivisions of a cell (Sub per side), relative
   to the minimum corner; a batch is a sequence of points. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Sub
CellOf(p) == <<p[1] \div Sub, p[2] \div Sub, p[3] \div Sub>>      \* \div is floor division
Accepts(batch) == \A i \in DOMAIN batch : \A a \in 1..3 : batch[i][a] >= 0
CellsOf(batch) == {CellOf(batch[i]) : i \in DOMAIN batch}
Added(cells, batch) == IF Accepts(batch) THEN cells \cup CellsOf(batch) ELSE cells
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
Lo(cells) == [a \in 1..3 |-> MinOf({c[a] : c \in cells})]
Hi(cells) == [a \in 1..3 |-> MaxOf({c[a] : c \in cells}) + 1]
(* the one-dimensional packing a grid of extents sx * sy * anything uses *)
Pack(c, sx, sy) == (c[3] * sy + c[2]) * sx + c[1]
Unpack(i, sx, sy) == <<i % sx, (i \div sx) % sy, (i \div sx) \div sy>>
=============================================================================
