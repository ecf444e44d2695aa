------------------------------- MODULE MCBox -------------------------------
(* Boxes built from corners, from points and by merging; and the mesh of a box.  The mesh construction of
   the implementation (corner of each of the 24 vertices, two triangles per side) is stated here and shown to
   satisfy MeshOk; the variants with one side exchanged must not. *)
EXTENDS Box, TLC
CONSTANTS R, MaxBoxes, BadSide
VARIABLES boxes, pts
P == {<<x, y, z>> : x \in R, y \in R, z \in R}
Init == boxes = <<>> /\ pts = <<>>
New(c1, c2) == boxes' = Append(boxes, BoxOf(c1, c2)) /\ pts' = Append(pts, {c1, c2})
Join(i, j) == boxes' = Append(boxes, Merge(<<boxes[i], boxes[j]>>)) /\ pts' = Append(pts, pts[i] \cup pts[j])
Next == Len(boxes) < MaxBoxes
        /\ \/ \E a, b \in P : New(a, b)
           \/ \E i, j \in DOMAIN boxes : Join(i, j)
Spec == Init /\ [][Next]_<<boxes, pts>>
Lut == IF BadSide THEN <<0, 1, 2, 3, 1, 5, 6, 2, 5, 4, 7, 6, 4, 0, 3, 7, 3, 2, 6, 7, 4, 0, 1, 5>>
       ELSE <<0, 1, 2, 3, 1, 5, 6, 2, 5, 4, 7, 6, 4, 0, 3, 7, 3, 2, 6, 7, 4, 5, 1, 0>>
Dirs == << <<0, 0, 1>>, <<1, 0, 0>>, <<0, 0, -1>>, <<-1, 0, 0>>, <<0, 1, 0>>, <<0, -1, 0>> >>
MVerts(b) == [i \in 1..24 |-> Corners(b)[Lut[i] + 1]]
MIdx(out) == [i \in 1..36 |-> LET f == (i - 1) \div 6  j == (i - 1) % 6 IN
                 4 * f + (IF out THEN <<0, 1, 2, 0, 2, 3>> ELSE <<0, 2, 1, 0, 3, 2>>)[j + 1]]
MNorm(out) == [i \in 1..24 |-> LET d == Dirs[(i - 1) \div 4 + 1] IN IF out THEN d ELSE [x \in Ax |-> -d[x]]]
Last == boxes[Len(boxes)]
InvBox == \A i \in DOMAIN boxes : IsBox(boxes[i]) /\ Vol(boxes[i]) >= 0
InvTight == \A i \in DOMAIN boxes : boxes[i] = BoxOfPoints(pts[i])
InvCorners == boxes # <<>> => LET c == Corners(Last) IN
    /\ (Vol(Last) > 0 => Cardinality({c[k] : k \in 1..8}) = 8)
    /\ \A k \in 1..8 : Contains(Last, c[k]) /\ ~ Inside(Last, c[k])
    /\ BoxOfPoints({c[k] : k \in 1..8}) = Last /\ BoxOf(c[1], c[7]) = Last /\ BoxOf(c[8], c[2]) = Last
InvMesh == boxes # <<>> => /\ MeshOk(Last, MVerts(Last), MIdx(TRUE), MNorm(TRUE), TRUE)
                           /\ MeshOk(Last, MVerts(Last), MIdx(FALSE), MNorm(FALSE), FALSE)
InvCenter == boxes # <<>> => \A x \in Ax : 2 * Last[1][x] <= Center2(Last)[x] /\ Center2(Last)[x] <= 2 * Last[2][x]
InvMerge == \A i, j \in DOMAIN boxes : Merge(<<boxes[i], boxes[j]>>) = Merge(<<boxes[j], boxes[i]>>)
                 /\ Merge(<<boxes[i], boxes[i]>>) = boxes[i]
=============================================================================
