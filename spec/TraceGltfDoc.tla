--------------------------- MODULE TraceGltfDoc ---------------------------
(* Judges what was made of glTF documents (driver gltfdoc). *)
EXTENDS GltfDoc, TraceBase, FiniteSets
VARIABLES l, bad
Same(d, p, r) ==
    /\ r.ind = Flat(Numbers(d, p.ind))
    /\ r.pos = Flat(Bytes(d, p.pos))
    /\ r.nrm = Flat(Bytes(d, p.nrm))
Judge(kind, v, r, same) ==
    C(kind \o "-refused", v # "ok" \/ r.r = "ok") \cup C(kind \o "-accepted", v # "refuse" \/ r.r = "err")
    \cup (IF v \in {"ok", "any"} /\ r.r = "ok" THEN C(kind \o "-value", same) ELSE {})
(* a primitive with texture coordinates is a textured mesh *)
Mesh(d, p) == IF p.uv = NIL THEN Untextured(d, p) ELSE Textured(d, p)
Prim(d, i, e, every) ==
    LET p == d.prims[i]
        m == d.mats[p.mat + 1]
        (* a mesh need not be had while another one of the document cannot be *)
        Soft(v) == IF v = "ok" /\ ~ every THEN "any" ELSE v
        u == Soft(Mesh(d, p))
        t == IF p.uv = NIL THEN "refuse" ELSE u
        r == e.plain[i]
        s == e.tex[i]
        Look(x) == /\ x.uv = Flat(Bytes(d, p.uv))
                   /\ (p.mat = NIL \/ (x.base = Pixels(d, m.base) /\ x.rough = Pixels(d, m.rough))) IN
    (IF u \in {"ok", "any"} /\ r.r = "ok" THEN Judge("mesh", u, r, Same(d, p, r) /\ r.tex = (p.uv # NIL) /\ (r.tex => Look(r))) ELSE Judge("mesh", u, r, TRUE))
    \cup (IF t \in {"ok", "any"} /\ s.r = "ok" THEN Judge("textured", t, s, Same(d, p, s) /\ Look(s)) ELSE Judge("textured", t, s, TRUE))
Fails(e) ==
    IF e.op # "doc" THEN {"unknown-event"} ELSE
    LET d == e.doc
        x == e.res
        good == AllProper(d)
        every == \A i \in DOMAIN d.prims : Mesh(d, d.prims[i]) = "ok"
        (* a file holds one buffer: what lies beyond a buffer here may be something there *)
        closed == \A a \in 0..(Len(d.accs) - 1) : Reaches(d, a) /\ Inside(d, a) IN
    IF x.load = "died" THEN {"ended-the-process"}
    ELSE IF x.load = "err" THEN C("load-refused", ~ good)
    ELSE IF ~ Plain(d) THEN {}
    ELSE C("number", x.n = Len(d.prims))
         \cup (IF x.n # Len(d.prims) THEN {} ELSE UNION {Prim(d, i, x, every) : i \in DOMAIN d.prims})
         \cup C("together", x.all # "diff" /\ (good => x.all = "same"))
         \cup C("copied", x.copy = "same") \cup C("unchanged", x.still = "same")
         \cup C("saved-gltf", (closed => x.gltf # "diff") /\ (good => x.gltf = "same"))
         \cup C("saved-glb", (closed => x.glb # "diff") /\ (good => x.glb = "same"))
Init == l = 1 /\ bad = <<>>
Next == \/ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
        \/ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
