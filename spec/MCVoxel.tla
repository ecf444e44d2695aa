------------------------------ MODULE MCVoxel ------------------------------
(* The implementation's design: cells are merged through a packing whose extents grow with the history
   of insertions and are part of the saved file.  Whatever the history, unpacking gives the set. *)
EXTENDS Voxel
CONSTANTS Max, MaxOps, Grow, KeepExtents      \* Grow: "each" | "all"   KeepExtents: file holds the extents
VARIABLES want, have, sx, sy, file, ops
vars == <<want, have, sx, sy, file, ops>>
Cells == {<<x, y, z>> : x \in 0..Max, y \in 0..Max, z \in 0..Max}
Coord == -1..(Max + 1) * Sub - 1
Batches == {<<>>} \cup {<<p>> : p \in {<<a, b, c>> : a \in {-1, 0, Sub, Max * Sub + Sub - 1}, b \in {0, Sub - 1, Max * Sub}, c \in {0, Max * Sub}}}
                 \cup {<<p, q>> : p \in {<<Max * Sub, 0, 0>>, <<0, 0, Sub>>, <<-1, 0, 0>>}, q \in {<<0, Max * Sub, 0>>, <<Sub, Sub, Sub>>}}
M(a, b) == IF a >= b THEN a ELSE b
Init == want = {} /\ have = {} /\ sx = 0 /\ sy = 0 /\ file = <<>> /\ ops = 0
Add(b) ==
    /\ ops < MaxOps /\ ops' = ops + 1
    /\ want' = Added(want, b)
    /\ IF ~ Accepts(b) \/ b = <<>> THEN UNCHANGED <<have, sx, sy>>
       ELSE LET new == CellsOf(b)
                mx == MaxOf({c[1] : c \in new}) + 1
                my == MaxOf({c[2] : c \in new}) + 1
                grow == Grow = "each" \/ (mx > sx /\ my > sy)
                nx == IF grow THEN M(sx, mx) ELSE sx
                ny == IF grow THEN M(sy, my) ELSE sy
                nx1 == M(nx, 1)  ny1 == M(ny, 1)
            IN /\ sx' = nx /\ sy' = ny
               /\ have' = {Unpack(Pack(c, nx1, ny1), nx1, ny1) : c \in have \cup new}
    /\ UNCHANGED file
Save == ops < MaxOps /\ ops' = ops + 1 /\ file' = <<have, want, sx, sy>> /\ UNCHANGED <<want, have, sx, sy>>
Load == /\ ops < MaxOps /\ file # <<>> /\ ops' = ops + 1 /\ have' = file[1] /\ want' = file[2]
        /\ sx' = (IF KeepExtents THEN file[3] ELSE 0) /\ sy' = (IF KeepExtents THEN file[4] ELSE 0)
        /\ UNCHANGED file
Next == (\E b \in Batches : Add(b)) \/ Save \/ Load
Spec == Init /\ [][Next]_vars
InvCells == have = want
InvExtents == KeepExtents => \A c \in have : c[1] < sx /\ c[2] < sy
InvBounds == have # {} => \A c \in have : \A a \in 1..3 : Lo(have)[a] <= c[a] /\ c[a] < Hi(have)[a]
OnlyGrows == [][\A c \in have : c \in have' \/ (file # <<>> /\ have' = file[1])]_vars
=============================================================================
