------------------------------ MODULE MCGltfDoc ------------------------------
(* Documents that say something, and documents one (or Depth) numbers away from them.  How: the reader that is checked. *)
EXTENDS GltfDoc, FiniteSets, TLC, Json
CONSTANTS Depth, How
VARIABLES d, steps, base
V(b, o, n, s) == [buffer |-> b, off |-> o, len |-> n, stride |-> s]
A(v, o, c, t, n) == [view |-> v, off |-> o, comp |-> c, type |-> t, count |-> n]
P(i, p, n, u, m) == [ind |-> i, pos |-> p, nrm |-> n, uv |-> u, mat |-> m]
Rest(fmt, k) ==     \* the images of a glb lie in views k and k + 1
    [mats |-> <<[base |-> 0, rough |-> 1], [base |-> NIL, rough |-> NIL], [base |-> 1, rough |-> NIL]>>, texs |-> <<[src |-> 0], [src |-> 1]>>,
     imgs |-> IF fmt = "glb" THEN <<[view |-> k], [view |-> k + 1]>> ELSE <<[view |-> NIL], [view |-> NIL]>>]
Tail2(fmt) == IF fmt = "glb" THEN <<V(0, 32, IMAGE, 0), V(0, 32 + IMAGE, IMAGE, 0)>> ELSE <<>>
Doc(fmt, views, accs, prims) ==
    [fmt |-> fmt, bufs |-> <<32 + (IF fmt = "glb" THEN 2 * IMAGE ELSE 0), FloatBytes>>, views |-> views \o Tail2(fmt), accs |-> accs, prims |-> prims]
    @@ Rest(fmt, Len(views))
IndexAccs == <<A(0, 0, 5125, "SCALAR", 6), A(4, 0, 5123, "SCALAR", 3), A(4, 0, 5121, "SCALAR", 6)>>
Packed(fmt) == Doc(fmt,
    <<V(0, 0, 24, 0), V(1, 0, 48, 0), V(1, 48, 48, 12), V(1, 96, 32, 0), V(0, 24, 8, 0)>>,
    IndexAccs \o <<A(1, 0, 5126, "VEC3", 4), A(2, 0, 5126, "VEC3", 4), A(3, 0, 5126, "VEC2", 4)>>,
    <<P(0, 3, 4, 5, 0), P(1, 3, 4, NIL, 1), P(2, 4, 3, 5, 2)>>)
Interleaved(fmt) == Doc(fmt,
    <<V(0, 0, 24, 0), V(1, 0, 128, 32), V(1, 128, 32, 0), V(1, 0, 64, 16), V(0, 24, 8, 0)>>,
    IndexAccs \o <<A(1, 0, 5126, "VEC3", 4), A(1, 12, 5126, "VEC3", 4), A(1, 24, 5126, "VEC2", 4), A(2, 0, 5126, "VEC2", 4), A(3, 4, 5126, "VEC3", 4)>>,
    <<P(0, 3, 4, 5, 0), P(1, 7, 3, NIL, 1), P(2, 4, 7, 6, 2)>>)
Shared(fmt) == Doc(fmt,
    <<V(0, 0, 32, 0), V(1, 4, 156, 36), V(1, 16, 96, 24), V(1, 0, 160, 0), V(0, 20, 12, 0)>>,
    <<A(0, 4, 5125, "SCALAR", 3), A(0, 24, 5123, "SCALAR", 3), A(4, 6, 5121, "SCALAR", 3),
      A(1, 0, 5126, "VEC3", 4), A(1, 12, 5126, "VEC3", 4), A(2, 0, 5126, "VEC2", 4), A(3, 16, 5126, "VEC3", 4)>>,
    <<P(0, 3, 4, 5, 1), P(1, 6, 3, 5, 0), P(2, 6, 6, NIL, 2)>>)
Bases == {f[1] : f \in {<<Packed("gltf")>>, <<Packed("glb")>>, <<Interleaved("gltf")>>, <<Interleaved("glb")>>, <<Shared("gltf")>>, <<Shared("glb")>>}}
Refs == {0 - 1, 0, 1, 2, 3, 4, 5, 6, 7, 8, BIG, ODD}
Offs == {0 - 1, 0, 1, 2, 4, 8, 12, 16, 24, 28, 31, 32, 33, 36, 48, 64, 96, 112, 113, 127, 128, 156, 160, 161, 288, BIG, ODD}
Lens == {0 - 1, 0, 1, 2, 8, 23, 24, 31, 32, 33, 47, 48, 64, 127, 128, 129, 159, 160, 161, 255, 256, 287, 288, 289, BIG, ODD}
Strides == {0 - 1, 0, 4, 8, 12, 14, 16, 20, 24, 32, 36, 40, 48, 128, 252, 256, BIG, ODD}
Counts == {0 - 1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, BIG, ODD}
Types == {0, 5120, 5121, 5122, 5123, 5124, 5125, 5126, 5127, 5130, 5131, BIG, ODD}
Maybe == Refs \cup {NIL}
Change(x) ==
    UNION {{[x EXCEPT !.bufs[i] = v] : v \in Lens} : i \in DOMAIN x.bufs}
    \cup UNION {{[x EXCEPT !.views[i].buffer = v] : v \in Refs} \cup {[x EXCEPT !.views[i].off = v] : v \in Offs}
                \cup {[x EXCEPT !.views[i].len = v] : v \in Lens} \cup {[x EXCEPT !.views[i].stride = v] : v \in Strides} : i \in DOMAIN x.views}
    \cup UNION {{[x EXCEPT !.accs[i].view = v] : v \in Refs} \cup {[x EXCEPT !.accs[i].off = v] : v \in Offs} \cup {[x EXCEPT !.accs[i].comp = v] : v \in Types}
                \cup {[x EXCEPT !.accs[i].type = v] : v \in Kinds \cup {"X"}} \cup {[x EXCEPT !.accs[i].count = v] : v \in Counts} : i \in DOMAIN x.accs}
    \cup UNION {{[x EXCEPT !.prims[i].ind = v] : v \in Maybe} \cup {[x EXCEPT !.prims[i].pos = v] : v \in Maybe} \cup {[x EXCEPT !.prims[i].nrm = v] : v \in Maybe}
                \cup {[x EXCEPT !.prims[i].uv = v] : v \in Maybe} \cup {[x EXCEPT !.prims[i].mat = v] : v \in Maybe} : i \in DOMAIN x.prims}
    \cup UNION {{[x EXCEPT !.mats[i].base = v] : v \in Maybe} \cup {[x EXCEPT !.mats[i].rough = v] : v \in Maybe} : i \in DOMAIN x.mats}
    \cup UNION {{[x EXCEPT !.texs[i].src = v] : v \in Maybe} : i \in DOMAIN x.texs}
    \cup (IF x.fmt = "glb" THEN UNION {{[x EXCEPT !.imgs[i].view = v] : v \in Maybe} : i \in DOMAIN x.imgs} ELSE {})
Init == d \in Bases /\ steps = 0 /\ base = TRUE
Next == steps < Depth /\ d' \in Change(d) /\ steps' = steps + 1 /\ base' = FALSE
Spec == Init /\ [][Next]_<<d, steps, base>>
Reads == {a \in UNION {{<<p.ind, TRUE>>, <<p.pos, FALSE>>, <<p.nrm, FALSE>>, <<p.uv, FALSE>>} : p \in {d.prims[i] : i \in DOMAIN d.prims}} :
            Plain(d) /\ Reaches(d, a[1]) /\ ~ Refuses(d, a[1], How, a[2])}
(* the documents everything starts from are in order *)
InvBases == base => AllProper(d)
(* nothing is read but the bytes of the buffer *)
InvForeign == \A a \in Reads :
    LET b == Buf(d, a[1]) IN ReadFrom(d, a[1], How, a[2]) \subseteq 0..((IF d.bufs[b + 1] < Actual(d, b) THEN d.bufs[b + 1] ELSE Actual(d, b)) - 1)
(* what is read is what the accessor stands for *)
InvCells == \A a \in Reads : Inside(d, a[1]) /\ Count(d, a[1]) <= 20 =>
    ReadFrom(d, a[1], How, a[2]) = {First(d, a[1]) + k * Step(d, a[1]) + j : k \in 0..(Count(d, a[1]) - 1), j \in 0..(ElemSize(d, a[1]) - 1)}
(* an element that overlaps the next one would give other bytes *)
InvOverlap == \A a \in Reads : ReadFrom(d, a[1], How, a[2]) # {} => Step(d, a[1]) >= ElemSize(d, a[1])
(* parts that do not concern a primitive do not change what it is *)
InvVerdicts == Plain(d) => \A i \in DOMAIN d.prims : LET p == d.prims[i] IN
    /\ Untextured(d, p) \in {"ok", "any", "refuse", "free"}
    /\ (Textured(d, p) = "ok" => Untextured(d, p) = "ok" /\ Inside(d, p.uv))
    /\ (Untextured(d, p) = "ok" => Inside(d, p.ind) /\ Inside(d, p.pos) /\ Inside(d, p.nrm))
Emit == PrintT(<<"OUT", ToJson(d)>>)
=============================================================================
