-------------------------------- MODULE Box --------------------------------
(* Axis-aligned boxes over integer coordinates: a box is <<lo, hi>>, points are triples. *)
EXTENDS Num
Ax == 1..3
PMin(a, b) == [x \in Ax |-> MinI(a[x], b[x])]
PMax(a, b) == [x \in Ax |-> MaxI(a[x], b[x])]
BoxOf(c1, c2) == <<PMin(c1, c2), PMax(c1, c2)>>
IsBox(b) == \A x \in Ax : b[1][x] <= b[2][x]
(* counter-clockwise around the front (largest z), then around the back, from bottom left *)
CornerSel == << <<0, 0, 1>>, <<1, 0, 1>>, <<1, 1, 1>>, <<0, 1, 1>>, <<0, 0, 0>>, <<1, 0, 0>>, <<1, 1, 0>>, <<0, 1, 0>> >>
Corners(b) == [k \in 1..8 |-> [x \in Ax |-> b[CornerSel[k][x] + 1][x]]]
Ext(b, x) == b[2][x] - b[1][x]
Vol(b) == Ext(b, 1) * Ext(b, 2) * Ext(b, 3)
Center2(b) == [x \in Ax |-> b[1][x] + b[2][x]]          \* twice the centre
Inside(b, p) == \A x \in Ax : b[1][x] < p[x] /\ p[x] < b[2][x]
Contains(b, p) == \A x \in Ax : b[1][x] <= p[x] /\ p[x] <= b[2][x]
(* smallest box around a non-empty set of points / list of boxes *)
BoxOfPoints(S) == << [x \in Ax |-> MinSet({p[x] : p \in S})], [x \in Ax |-> MaxSet({p[x] : p \in S})] >>
Merge(bs) == BoxOfPoints(UNION {{bs[i][1], bs[i][2]} : i \in DOMAIN bs})

(* ------------------------------------------------------------------ the box as a mesh
   verts: sequence of points, idx: sequence of vertex numbers from 0, norms: sequence of triples *)
Tri(verts, idx, k) == [j \in 1..3 |-> verts[idx[3 * (k - 1) + j] + 1]]
NTri(idx) == Len(idx) \div 3
Sub(a, b) == [x \in Ax |-> a[x] - b[x]]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Vol6(t, o) == Dot(Sub(t[1], o), Cross(Sub(t[2], o), Sub(t[3], o)))
SignedVol6(verts, idx, o) == SumSeq([k \in 1..NTri(idx) |-> Vol6(Tri(verts, idx, k), o)])
Edge(verts, idx, k, j) == <<verts[idx[3 * (k - 1) + j] + 1], verts[idx[3 * (k - 1) + (j % 3) + 1] + 1]>>
Edges(verts, idx) == [e \in 1..Len(idx) |-> Edge(verts, idx, (e - 1) \div 3 + 1, ((e - 1) % 3) + 1)]
(* every directed edge occurs once, its reverse too *)
Closed(verts, idx) ==
    LET es == Edges(verts, idx)
        E == {es[i] : i \in DOMAIN es}
    IN Cardinality(E) = Len(es) /\ \A e \in E : <<e[2], e[1]>> \in E
SideOf(n, out) ==   \* the side a unit axis normal belongs to: axis and which end; <<0, 0>> if not an axis normal
    LET x == {a \in Ax : n[a] # 0} IN
    IF Cardinality(x) # 1 \/ Abs(n[CHOOSE a \in x : TRUE]) # 1 THEN <<0, 0>>
    ELSE LET a == CHOOSE a \in x : TRUE IN <<a, IF (n[a] = 1) = out THEN 2 ELSE 1>>
(* each triangle lies in one side of the box, its three normals are that side's outward (out) or inward
   unit normal and its winding agrees with them; every side has two triangles *)
SidesOk(b, verts, idx, norms, out) ==
    LET side(k) == SideOf(norms[idx[3 * (k - 1) + 1] + 1], out)
        ok(k) == LET s == side(k) t == Tri(verts, idx, k) IN
                 /\ s # <<0, 0>>
                 /\ \A j \in 1..3 : norms[idx[3 * (k - 1) + j] + 1] = norms[idx[3 * (k - 1) + 1] + 1]
                 /\ \A j \in 1..3 : t[j][s[1]] = b[s[2]][s[1]]
                 /\ LET c == Cross(Sub(t[2], t[1]), Sub(t[3], t[1])) IN
                    Dot(c, norms[idx[3 * (k - 1) + 1] + 1]) >= 0
    IN /\ \A k \in 1..NTri(idx) : ok(k)
       /\ \A a \in Ax : \A s \in 1..2 : Cardinality({k \in 1..NTri(idx) : side(k) = <<a, s>>}) = 2
MeshOk(b, verts, idx, norms, out) ==
    /\ Len(idx) = 36 /\ Len(verts) = 24 /\ Len(norms) = 24
    /\ \A i \in DOMAIN idx : idx[i] \in 0..23
    /\ {verts[i] : i \in DOMAIN verts} = {Corners(b)[i] : i \in 1..8}
    /\ SidesOk(b, verts, idx, norms, out)
    /\ SignedVol6(verts, idx, b[1]) = (IF out THEN 6 ELSE -6) * Vol(b)
    /\ (Vol(b) > 0 => Closed(verts, idx))
=============================================================================
