------------------------------ MODULE TraceCube ------------------------------
(* Judges recorded point clouds of cube-map images (driver cube).  Pixels [k, v, big]: valid (v) pixels lie k/1000 times
   the ray on the cube of half side 1 away; points are in units of 1/(1000 n m). *)
EXTENDS CubeMap, TraceBase
VARIABLES l, bad
HUGE == 2000000000
Near(a, b, t) == a - b <= t /\ b - a <= t
CoordOk(x, d, p, m) == IF p.big THEN x = (IF d = 0 THEN 0 ELSE IF d > 0 THEN HUGE ELSE -HUGE)
                       ELSE Near(x, p.k * d * m, 2 + (Abs(p.k * d * m) \div 4000000))
PointOk(e, i, x) == LET p == e.px[i] IN
    IF ~ p.v THEN x = <<0, 0, 0>>
    ELSE LET d == Dir(e.n, (i - 1) \div e.w, (i - 1) % e.w) IN \A k \in 1..3 : CoordOk(x[k], d[k], p, e.m)
Shown(e) == SelectSeq([i \in 1..(e.n * e.w) |-> i], LAMBDA i : e.all \/ e.px[i].v)
CloudFails(e) ==
    LET ids == Shown(e) IN
    C("raised", e.ok) \cup C("image-changed", e.kept)
    \cup (IF ~ e.ok THEN {} ELSE
        C("count", Len(e.points) = Len(ids) /\ Len(e.colors) = Len(ids) /\ e.num = Len(ids))
        \cup (IF Len(e.points) # Len(ids) \/ Len(e.colors) # Len(ids) THEN {} ELSE
            C("points", \A j \in DOMAIN ids : PointOk(e, ids[j], e.points[j]))
            \cup C("colours", \A j \in DOMAIN ids : e.colors[j] = (IF e.px[ids[j]].v THEN e.rgb[ids[j]] ELSE <<0, 0, 0>>))))
SparseFails(e) ==
    C("raised", e.ok)
    \cup (IF ~ e.ok THEN {} ELSE
        C("count", Len(e.points) = Len(e.at) /\ Len(e.colors) = Len(e.at))
        \cup (IF Len(e.points) # Len(e.at) \/ Len(e.colors) # Len(e.at) THEN {} ELSE
            C("points", \A j \in DOMAIN e.at : LET d == Dir(e.n, e.at[j][1], e.at[j][2]) IN \A k \in 1..3 : CoordOk(e.points[j][k], d[k], e.px[j], e.m))
            \cup C("colours", \A j \in DOMAIN e.at : e.colors[j] = e.rgb[j])))
Fails(e) ==
    CASE e.op = "cloud" -> CloudFails(e)
      [] e.op = "sparse" -> SparseFails(e)
      [] e.op = "refuse" -> C("refuses-" \o e.what, ~ e.ok) \cup C("exception", e.what # "size" \/ e.value)
      [] e.op = "type" -> C("type", ~ e.ok /\ e.type) \cup C("type-360", e.k > 1 \/ (~ e.ok360 /\ e.type360)) \cup C("type-360-good", e.k < 2 \/ e.ok360)
      [] OTHER -> {"unknown-event"}
Init == l = 1 /\ bad = <<>>
Next == \/ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
        \/ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
