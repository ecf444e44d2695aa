---------------------------- MODULE TraceSampling ----------------------------
(* Judges recorded samples (driver sampling).  A face: verts (three integer triples), attributes (list per
   vertex).  Points: xyz in 1/scale units followed by the attributes in hundredths. *)
EXTENDS Sampling, TraceBase
VARIABLES l, bad
(* faces of an event, as <<verts, attrs>> *)
MeshFaces(m, e) ==
    LET tex == m.tex # <<>>
        h == Len(m.tex)
        w == IF tex THEN Len(m.tex[1]) ELSE 0
        vert(i) == Posed(m.verts[i + 1], e.rot, e.den, e.t)
        col(i) == IF ~ tex THEN Grey ELSE m.tex[Texel(m.uv[i + 1][2], h) + 1][Texel(m.uv[i + 1][1], w) + 1]
    IN [k \in 1..Len(m.idx) \div 3 |->
          LET i(j) == m.idx[3 * (k - 1) + j] IN
          << <<vert(i(1)), vert(i(2)), vert(i(3))>>, <<col(i(1)), col(i(2)), col(i(3))>> >>]
RECURSIVE Concat(_)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
Faces(e) == IF e.op = "mesh" THEN [k \in DOMAIN e.faces |-> <<e.faces[k].v, e.faces[k].a>>]
            ELSE Concat([i \in DOMAIN e.meshes |-> MeshFaces(e.meshes[i], e)])
Start(cnt, k) == SumSeq(SubSeq(cnt, 1, k - 1))
PointFails(fa, row, scale, nattr) ==
    C("off-surface", OnFace(fa[1], SubSeq(row, 1, 3), scale))
    \cup C("attribute", \A j \in 1..nattr : AttrOk(fa[1], <<fa[2][1][j], fa[2][2][j], fa[2][3][j]>>, SubSeq(row, 1, 3), row[3 + j], scale))
SampleFails(e) ==
    LET fs == Faces(e)
        cnt == [k \in DOMAIN fs |-> Count(fs[k][1], e.p, e.q)]
        nattr == IF e.op = "mesh" THEN (IF fs = <<>> THEN 0 ELSE Len(fs[1][2][1])) ELSE 3
    IN IF ~ e.ok THEN {"raised"}
       ELSE C("count", Len(e.points) = SumSeq(cnt))
            \cup C("columns", \A i \in DOMAIN e.points : Len(e.points[i]) = 3 + nattr)
            \cup (IF Len(e.points) # SumSeq(cnt) \/ \E i \in DOMAIN e.points : Len(e.points[i]) # 3 + nattr THEN {}
                  ELSE UNION {UNION {PointFails(fs[k], e.points[i], e.scale, nattr)
                                     : i \in Start(cnt, k) + 1..Start(cnt, k) + cnt[k]} : k \in DOMAIN fs})
            \cup C("input-changed", e.same)
(* four congruent parts of a face: each gets a quarter of many samples *)
SpreadFails(e) == IF ~ e.ok THEN {"raised"}
                  ELSE C("count", SumSeq(e.parts) = e.n)
                       \cup C("spread", \A i \in 1..4 : Abs(4 * e.parts[i] - e.n) <= 4 * 3 * ISqrt(e.n))
(* cells of the voxelised model, points relative to the grid's corner in 1/1000 of a cell *)
CellNear(c, p) == \A a \in 1..3 : p[a] >= 1000 * c[a] - 2 /\ p[a] <= 1000 * (c[a] + 1) + 2
VoxFails(e) ==
    IF ~ e.ok THEN {"raised"} ELSE
    C("point-without-cell", \A i \in DOMAIN e.points : \E k \in DOMAIN e.cells : CellNear(e.cells[k], e.points[i]))
    \cup C("cell-without-point", \A k \in DOMAIN e.cells : \E i \in DOMAIN e.points : CellNear(e.cells[k], e.points[i]))
    \cup C("corner", \A a \in 1..3 : (\A i \in DOMAIN e.points : e.points[i][a] >= -2) /\ \E i \in DOMAIN e.points : e.points[i][a] <= 2)
    \cup C("bounds", \A a \in 1..3 : LET m == MaxSet({e.points[i][a] : i \in DOMAIN e.points}) IN
                          e.lo[a] >= -2 /\ e.lo[a] <= 2 /\ e.hi[a] >= m - 2 /\ e.hi[a] <= m + 1002)
    \cup C("voxel-size", e.size = e.wantsize)
Fails(e) == CASE e.op \in {"mesh", "element", "model"} -> SampleFails(e)
              [] e.op = "spread" -> SpreadFails(e)
              [] e.op = "vox" -> VoxFails(e)
              [] OTHER -> {"unknown-event"}
Init == l = 1 /\ bad = <<>>
Next == \/ /\ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
