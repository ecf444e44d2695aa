----------------------------- MODULE TraceTriMesh -----------------------------
(* Judges recorded operations on meshes (driver trimesh).  Lengths are in 1/1000. *)
EXTENDS TriMesh, TraceBase, Num
Rg == INSTANCE Rigid
VARIABLES l, bad, regs
Of(r) == [v |-> r.v, n |-> r.n, uv |-> r.uv, idx |-> r.idx, tex |-> r.tex, base |-> r.base, mr |-> r.mr, dual |-> r.dual]
G(m) == [v |-> m.v, n |-> m.n, uv |-> m.uv, idx |-> m.idx]
A(e) == regs[e.a]
B(e) == regs[e.b]
NearRow(a, b, tol) == Len(a) = Len(b) /\ \A x \in DOMAIN a : Near(a[x], b[x], tol)
NearRows(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : b[i] = Hole \/ NearRow(a[i], b[i], tol)
SoundM(r) == C("index-out-of-range", InRange(r)) \cup C("not-parallel", Parallel(r))
             \cup C("sizes", r.num = <<Len(r.idx), Len(r.v)>> /\ r.dt = <<"uint32", "float32", "float32">> /\ r.cls = IF r.tex THEN "TexturedMesh" ELSE "Mesh")
Geometry(r, want, tol) == C("indices", r.idx = want.idx) \cup C("vertices", NearRows(r.v, want.v, tol)) \cup C("normals", NearRows(r.n, want.n, tol))
             \cup (IF r.tex THEN C("texture-coordinates", NearRows(UvAll(r), want.uv, 0)) ELSE {})
Look(r, like) == C("texture", r.tex = like.tex /\ r.base = like.base /\ r.mr = like.mr) \cup C("material", r.dual = like.dual)
Want(m) == [v |-> m.v, n |-> m.n, uv |-> UvAll(m), idx |-> m.idx]
(* ------------------------------------------------------------------ rigid motions *)
Rnd2(x, d) == (2 * x + d) \div (2 * d)
Turn(q, x) == LET m == Rg!QMat(q) v == Rg!MulMV(m[1], x) IN [i \in 1..3 |-> Rnd2(v[i], m[2])]
Moved(m, ps) == [v |-> [i \in DOMAIN m.v |-> LET y == Turn(ps[1], m.v[i]) IN [x \in 1..3 |-> y[x] + ps[2][x]]],
                 n |-> [i \in DOMAIN m.n |-> Turn(ps[1], m.n[i])], uv |-> UvAll(m), idx |-> m.idx]
(* ------------------------------------------------------------------ cleaning *)
D2(p, q) == LET d(x) == p[x] - q[x] IN
            IF \E x \in 1..3 : Abs(d(x)) > 20000 THEN -1 ELSE (d(1) * d(1) + d(2) * d(2) + d(3) * d(3))
Sq(x) == x * x
Short(m, thr, i, j) == LET d == D2(m.v[i + 1], m.v[j + 1]) IN d >= 0 /\ d <= Sq(thr)
Within(m, thr, i, j, k) == Short(m, thr, i, j) /\ Short(m, thr, j, k) /\ Short(m, thr, k, i)
Long(m, thr) == LET F(i, j, k) == Within(m, thr, i, j, k) IN Keep(G(m), F).idx
(* a vertex is at the origin if no coordinate is more than 1e-10 (far: largest coordinate in 1e-11) *)
NoOrigin(m, far) == LET O(i) == far[i + 1] <= 10  F(i, j, k) == ~ O(i) /\ ~ O(j) /\ ~ O(k) IN Keep(G(m), F).idx
LongFails(e) == C("kept", IF e.ex THEN e.res.idx = Long(A(e), e.thr) ELSE Len(e.res.idx) >= Len(Long(A(e), e.thr - 3)) /\ Len(e.res.idx) <= Len(Long(A(e), e.thr + 3)))
(* ------------------------------------------------------------------ normals: vertices are small integers *)
CrossF(v, idx, t) == LET p == v[idx[3*t - 2] + 1] q == v[idx[3*t - 1] + 1] r == v[idx[3*t] + 1]
                     IN Rg!CrossV(Rg!SubV(q, p), Rg!SubV(r, p))
Dot(a, b) == Rg!DotV(a, b)
UnitOf(c) == LET d == Dot(c, c) IN IF d = 0 THEN <<0, 0, 0>>
             ELSE [x \in 1..3 |-> (IF c[x] < 0 THEN -1 ELSE 1) * ISqrt((1000000 * c[x] * c[x]) \div d)]
RECURSIVE SumN(_, _, _, _)
SumN(v, idx, i, t) == IF 3 * t > Len(idx) THEN <<0, 0, 0>>
    ELSE LET k == Cardinality({x \in {3*t - 2, 3*t - 1, 3*t} : idx[x] = i}) u == UnitOf(CrossF(v, idx, t)) s == SumN(v, idx, i, t + 1)
         IN [x \in 1..3 |-> k * u[x] + s[x]]
NormalsFails(e) == IF ~ e.ok THEN {"raised"} ELSE
    C("operand-changed", e.same)
    \cup C("face-normals", Len(e.face) = Len(e.idx) \div 3 /\ \A t \in DOMAIN e.face : NearRow(e.face[t], UnitOf(CrossF(e.v, e.idx, t)), 2))
    \cup C("vertex-normals", Len(e.vert) = Len(e.v) /\ \A i \in DOMAIN e.vert :
            LET s == SumN(e.v, e.idx, i - 1, 1) len == ISqrt(Dot(s, s)) IN
            IF \A t \in 1..(Len(e.idx) \div 3) : CrossF(e.v, e.idx, t) = <<0, 0, 0>> \/ (i - 1) \notin {e.idx[3*t-2], e.idx[3*t-1], e.idx[3*t]} THEN e.vert[i] = <<0, 0, 0>>
            ELSE len < 200 \/ \A x \in 1..3 : Near((e.vert[i][x] * len) \div 1000, s[x], 20 + len \div 200))
(* ------------------------------------------------------------------ the documented cubes *)
Corners8(h) == {<<x, y, z>> : x \in {-h, h}, y \in {-h, h}, z \in {-h, h}}
cr1(r, t, unit) == LET p == r.v[r.idx[3*t - 2] + 1] q == r.v[r.idx[3*t - 1] + 1] s == r.v[r.idx[3*t] + 1]
                       a == [x \in 1..3 |-> (q[x] - p[x]) \div unit] b == [x \in 1..3 |-> (s[x] - p[x]) \div unit]
                   IN Rg!CrossV(a, b)
Sgn3(v) == [x \in 1..3 |-> IF v[x] > 0 THEN 1 ELSE IF v[x] < 0 THEN -1 ELSE 0]
CubeFails(e) == IF ~ e.ok THEN {"raised"} ELSE
    LET r == e.res
        cr(t) == CrossF(r.v, r.idx, t)
        mid(t) == LET i == r.idx[3*t - 2] + 1 IN r.v[i]
        h == e.half
        unit == 2 * h
    IN SoundM(r) \cup C("twelve-triangles", Len(r.idx) = 36)
       \cup C("corners", Rng(r.v) = Corners8(h) /\ Len(r.v) = IF e.kind = "example" THEN 8 ELSE 24)
       \cup (IF Len(r.idx) # 36 \/ ~ InRange(r) THEN {} ELSE
         C("surface", \A ax \in 1..3 : \A sg \in {1, -1} :
             LET ts == {t \in 1..12 : \A x \in 0..2 : r.v[r.idx[3*t - x] + 1][ax] = sg * h} IN
             /\ Cardinality(ts) = 2
             /\ \A t \in ts : LET n == [x \in 1..3 |-> cr1(r, t, unit)[x]] IN
                    (* two right triangles of half the side's area, facing in or out *)
                    n = [x \in 1..3 |-> IF x = ax THEN (IF e.inward THEN -sg ELSE sg) ELSE 0]
             /\ UNION {{r.v[r.idx[3*t - x] + 1] : x \in 0..2} : t \in ts} = {c \in Corners8(h) : c[ax] = sg * h})
         \cup C("normals", \A i \in DOMAIN r.v : IF e.kind = "example"
                THEN \A x \in 1..3 : (r.n[i][x] > 0) = ((r.v[i][x] > 0) # e.inward)
                ELSE \E ax \in 1..3 : r.n[i] = [x \in 1..3 |-> IF x = ax THEN (IF r.v[i][ax] > 0 THEN -1000 ELSE 1000) ELSE 0])
         \cup C("vertex-normals", e.kind = "example" \/ \A t \in 1..12 : \A x \in 0..2 : Sgn3(r.n[r.idx[3*t - x] + 1]) = cr1(r, t, unit))
         \cup (IF e.kind # "textured" THEN {} ELSE
                C("texture", r.base = e.base /\ r.mr = e.mr)
                (* sides from left to right in the texture; v down from the top *)
                \cup C("texture-coordinates", \A i \in DOMAIN r.v : LET f == (i - 1) \div 4  j == (i - 1) - 4 * f IN
                        NearRow(r.uv[i], <<(1000 * (f + (IF j \in {1, 3} THEN 1 ELSE 0))) \div 6, IF j < 2 THEN 1000 ELSE 0>>, 1))))
(* ------------------------------------------------------------------ quadrants *)
QuadFails(e) == IF ~ e.ok THEN {"raised"} ELSE
    LET r == e.res
        glob(q, i) == QuadVerts[q][i + 1]
        all == [t \in 1..4 |-> [i \in DOMAIN e.parts[t].idx |-> glob(t, e.parts[t].idx[i])]]
    IN SoundM(r) \cup C("vertices", r.v = e.verts) \cup C("normals", r.n = e.norms) \cup C("texture-coordinates", r.uv = e.uvs)
       \cup C("indices", r.idx = all[1] \o all[2] \o all[3] \o all[4]) \cup Look(r, e.parts[1])
(* ------------------------------------------------------------------ renumbering *)
Shifted(e) == [i \in DOMAIN A(e).idx |-> IF A(e).idx[i] < Len(e.list) THEN e.list[A(e).idx[i] + 1] ELSE A(e).idx[i] + e.num]
RenumberFails(e) ==
    LET w == Renumber(G(A(e)), e.num, e.list) r == e.res IN
    C("vertices", NearRows(r.v, w.v, 0)) \cup C("normals", NearRows(r.n, w.n, 0)) \cup C("texture-coordinates", Len(r.uv) = 0 \/ NearRows(r.uv, w.uv, 0))
    \cup Look(r, A(e)) \cup C("not-parallel", Parallel(r))
    \cup (IF r.idx = w.idx THEN {} ELSE IF r.idx = Shifted(e) THEN {"shifted-by-whole-block"} ELSE {"indices"})
PlainColor(e) == [i \in 1..12 |-> e.color[(i - 1) - 3 * ((i - 1) \div 3) + 1]]
Fails(e) == CASE e.op = "alias" -> C("aliased", e.same)
              [] e.op = "normals" -> NormalsFails(e)
              [] e.op = "cube" -> CubeFails(e)
              [] e.op = "quads" -> QuadFails(e)
              [] e.op = "compare" -> C("same-size", e.size = (Len(A(e).idx) = Len(B(e).idx) /\ Len(A(e).v) = Len(B(e).v)))
                    \cup C("same-material", e.material = (A(e).tex = B(e).tex /\ A(e).dual = B(e).dual))
              [] OTHER ->
    C("operand-changed", e.same) \cup IF ~ e.ok THEN {"raised"} ELSE
    (IF e.op = "renumber" THEN {} ELSE SoundM(e.res)) \cup
    CASE e.op = "mesh" -> Geometry(e.res, Want(e.want), 0) \cup Look(e.res, e.want)
      [] e.op = "merge" -> Geometry(e.res, Merge(A(e), B(e), e.k), 0) \cup Look(e.res, A(e))
      [] e.op = "replace" -> Geometry(e.res, Want(B(e)), 0) \cup Look(e.res, A(e))
      [] e.op \in {"transform", "rotate"} -> Geometry(e.res, Moved(A(e), e.pose), 2) \cup Look(e.res, A(e))
      [] e.op = "cleanlong" -> Geometry(e.res, [Want(A(e)) EXCEPT !.idx = e.res.idx], 0) \cup Look(e.res, A(e)) \cup LongFails(e)
      [] e.op = "cleanorigin" -> Geometry(e.res, [Want(A(e)) EXCEPT !.idx = NoOrigin(A(e), e.far)], 0) \cup Look(e.res, A(e))
      [] e.op = "renumber" -> RenumberFails(e)
      [] e.op = "frommesh" -> Geometry(e.res, [Want(A(e)) EXCEPT !.uv = [i \in DOMAIN A(e).v |-> <<0, 0>>]], 0)
            \cup C("texture", e.res.tex /\ e.res.base = <<<<2, 2, 3>>, PlainColor(e)>>)
      [] OTHER -> {"unknown-event"}
Regs(e, old) == IF e.op \in {"alias", "normals", "cube", "quads", "compare"} \/ ~ e.ok THEN old
                ELSE IF e.dst # 0 THEN [old EXCEPT ![e.dst] = Of(e.res)] ELSE Append(old, Of(e.res))
Init == l = 1 /\ bad = <<>> /\ regs = <<>>
Next == \/ /\ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
           /\ regs' = Regs(Log[l], IF "new" \in DOMAIN Log[l] THEN <<>> ELSE regs)
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED <<bad, regs>>
Spec == Init /\ [][Next]_<<l, bad, regs>>
=============================================================================
