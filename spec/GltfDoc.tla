------------------------------ MODULE GltfDoc ------------------------------
(* What a glTF document says, and what may be made of one whose parts do not fit together.
   A document is a record: fmt "gltf" | "glb" and sequences of
     bufs   declared byteLength of a buffer           views  [buffer, off, len, stride]
     accs   [view, off, comp, type, count]            prims  [ind, pos, nrm, uv, mat]
     mats   [base, rough] (textures)                  texs   [src] (image)
     imgs   [view]: the view with the image's file (glb), or NIL: the image has a URI
   References count from 0.  NIL: the property is absent.  BIG: a number beyond anything.  ODD: something that is
   no number at all.  The reader lays an array over the cells of a buffer. *)
EXTENDS Integers, Sequences
NIL == 0 - 9
ODD == 0 - 8
BIG == 1000000
IMAGE == 128            \* bytes of an image inside a buffer
Indices == <<0, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 2, 0, 0, 0, 1, 0, 0, 0, 3, 0, 0, 0, 0, 0, 1, 0, 2, 0, 3, 200>>
FloatBytes == 160
(* bytes in the file *)
Actual(d, b) == IF b = 0 THEN Len(Indices) + (IF d.fmt = "glb" THEN 2 * IMAGE ELSE 0) ELSE FloatBytes
Byte(b, i) == IF b = 0 THEN Indices[i + 1] ELSE 1 + ((i * 29 + 11 * (i \div 4)) % 100)
Known(b, i) == b # 0 \/ i < Len(Indices)

Has(s, i) == i \in 0..(Len(s) - 1)
Size(c) == CASE c \in {5120, 5121} -> 1 [] c \in {5122, 5123} -> 2 [] c \in {5124, 5125, 5126} -> 4 [] c = 5130 -> 8 [] OTHER -> 0
Kinds == {"SCALAR", "VEC2", "VEC3", "VEC4", "MAT2", "MAT3", "MAT4"}
Comps(t) == CASE t = "SCALAR" -> 1 [] t = "VEC2" -> 2 [] t = "VEC3" -> 3 [] t \in {"VEC4", "MAT2"} -> 4
              [] t = "MAT3" -> 9 [] t = "MAT4" -> 16 [] OTHER -> 0
StrideOk(s) == s = 0 \/ (s \in 4..252 /\ s % 4 = 0)
Numeral(x) == x \in (0 - 2)..BIG
Plain(d) ==     \* only numbers where there have to be numbers
    /\ \A i \in DOMAIN d.bufs : Numeral(d.bufs[i])
    /\ \A i \in DOMAIN d.views : LET v == d.views[i] IN Numeral(v.buffer) /\ Numeral(v.off) /\ Numeral(v.len) /\ Numeral(v.stride)
    /\ \A i \in DOMAIN d.accs : LET a == d.accs[i] IN Numeral(a.view) /\ Numeral(a.off) /\ Numeral(a.comp) /\ Numeral(a.count)
    /\ \A i \in DOMAIN d.prims : LET p == d.prims[i] IN \A x \in {p.ind, p.pos, p.nrm, p.uv, p.mat} : x # ODD
    /\ \A i \in DOMAIN d.mats : d.mats[i].base # ODD /\ d.mats[i].rough # ODD
    /\ \A i \in DOMAIN d.texs : d.texs[i].src # ODD
    /\ \A i \in DOMAIN d.imgs : d.imgs[i].view # ODD

(* ---- the cells an accessor stands for ---- *)
Reaches(d, a) == Has(d.accs, a) /\ Has(d.views, d.accs[a + 1].view) /\ Has(d.bufs, d.views[d.accs[a + 1].view + 1].buffer)
View(d, a) == d.views[d.accs[a + 1].view + 1]
Buf(d, a) == View(d, a).buffer
ElemSize(d, a) == Size(d.accs[a + 1].comp) * Comps(d.accs[a + 1].type)
Step(d, a) == IF View(d, a).stride > ElemSize(d, a) THEN View(d, a).stride ELSE ElemSize(d, a)
First(d, a) == View(d, a).off + d.accs[a + 1].off
(* the byte beyond the last one of the accessor *)
Beyond(d, a) == LET n == d.accs[a + 1].count IN
    IF n = 0 THEN First(d, a) ELSE IF n > 10000 THEN BIG * 100 ELSE First(d, a) + (n - 1) * Step(d, a) + ElemSize(d, a)
Inside(d, a) ==
    LET b == Buf(d, a)
        v == View(d, a)
        n == d.bufs[b + 1] IN
    /\ n \in 0..Actual(d, b)
    /\ v.off >= 0 /\ d.accs[a + 1].off >= 0 /\ d.accs[a + 1].count >= 0 /\ v.stride >= 0
    /\ Beyond(d, a) <= n
Bytes(d, a) ==      \* one sequence of bytes per element
    [k \in 1..d.accs[a + 1].count |-> [j \in 1..ElemSize(d, a) |-> Byte(Buf(d, a), First(d, a) + (k - 1) * Step(d, a) + j - 1)]]
(* numbers as the four bytes of an index *)
Numbers(d, a) == LET b == Bytes(d, a) IN [k \in DOMAIN b |-> [j \in 1..4 |-> IF j <= Len(b[k]) THEN b[k][j] ELSE 0]]
Less(x, n) == IF x[3] # 0 \/ x[4] # 0 THEN FALSE ELSE x[1] + 256 * x[2] < n
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE
    LET h == Len(s) \div 2 IN Flat(SubSeq(s, 1, h)) \o Flat(SubSeq(s, h + 1, Len(s)))

(* everything glTF demands of an accessor, besides being inside *)
Proper(d, a) ==
    LET v == View(d, a)
        x == d.accs[a + 1] IN
    /\ x.count > 0 /\ StrideOk(v.stride) /\ (v.stride = 0 \/ v.stride >= ElemSize(d, a))
    /\ v.off % 4 = 0 /\ x.off % Size(x.comp) = 0
    /\ Beyond(d, a) <= v.off + v.len /\ v.len > 0 /\ v.off + v.len <= d.bufs[v.buffer + 1] /\ d.bufs[v.buffer + 1] = Actual(d, v.buffer)
    /\ \A i \in First(d, a)..(Beyond(d, a) - 1) : Known(v.buffer, i)

(* ---- verdicts: "ok" must succeed with the value, "refuse" must not succeed, "any" either, with the value,
        "free" either, with any value ---- *)
Worse(x, y) == IF "refuse" \in {x, y} THEN "refuse" ELSE IF "free" \in {x, y} THEN "free" ELSE IF "any" \in {x, y} THEN "any" ELSE "ok"
Acc(d, a, comps, type) ==
    IF a = NIL THEN "free"
    ELSE IF ~ Reaches(d, a) THEN "refuse"
    ELSE IF d.accs[a + 1].comp \notin comps \/ d.accs[a + 1].type \notin Kinds THEN "refuse"
    ELSE IF d.accs[a + 1].type # type THEN (IF comps = {5126} THEN "refuse" ELSE "free")
    ELSE IF ~ Inside(d, a) THEN "refuse"
    ELSE IF \E i \in First(d, a)..(Beyond(d, a) - 1) : ~ Known(Buf(d, a), i) THEN "free"
    ELSE IF Proper(d, a) THEN "ok" ELSE "any"
Count(d, a) == d.accs[a + 1].count
(* triangles of vertices that are there *)
Sound(d, p) == /\ Count(d, p.ind) % 3 = 0 /\ Count(d, p.nrm) = Count(d, p.pos)
               /\ \A i \in DOMAIN Numbers(d, p.ind) : Less(Numbers(d, p.ind)[i], Count(d, p.pos))
Geometry(d, p) ==
    LET w == Worse(Acc(d, p.ind, {5121, 5123, 5125}, "SCALAR"), Worse(Acc(d, p.pos, {5126}, "VEC3"), Acc(d, p.nrm, {5126}, "VEC3"))) IN
    IF w = "ok" /\ ~ Sound(d, p) THEN "any" ELSE w
Untextured(d, p) ==
    Worse(Geometry(d, p), IF p.mat = NIL THEN "any" ELSE IF Has(d.mats, p.mat) THEN "ok" ELSE "refuse")
ImageOk(d, i) ==
    IF d.imgs[i + 1].view = NIL THEN "ok"
    ELSE LET v == d.imgs[i + 1].view IN
         IF v < 0 THEN "free"       \* an image without a file
         ELSE IF ~ Has(d.views, v) \/ ~ Has(d.bufs, d.views[v + 1].buffer) THEN "refuse"
         ELSE LET w == d.views[v + 1] IN
              IF w.off < 0 \/ w.len < 0 \/ d.bufs[w.buffer + 1] \notin 0..Actual(d, w.buffer) THEN "refuse"
              ELSE IF w.off + w.len > d.bufs[w.buffer + 1] THEN "refuse"
              ELSE IF w.buffer = 0 /\ w.off = Len(Indices) + i * IMAGE /\ w.len >= IMAGE /\ w.stride = 0 /\ d.bufs[w.buffer + 1] = Actual(d, w.buffer)
                   THEN "ok" ELSE "free"
Texture(d, t) ==
    IF t = NIL THEN "ok"
    ELSE IF ~ Has(d.texs, t) THEN "refuse"
    ELSE IF d.texs[t + 1].src = NIL THEN "any"
    ELSE IF ~ Has(d.imgs, d.texs[t + 1].src) THEN "refuse"
    ELSE ImageOk(d, d.texs[t + 1].src)
Textured(d, p) ==
    LET g == Worse(Untextured(d, p), IF p.uv = NIL THEN "refuse" ELSE Acc(d, p.uv, {5126}, "VEC2"))
        h == IF g \in {"ok", "any"} /\ Count(d, p.uv) # Count(d, p.pos) THEN "any" ELSE g IN
    IF p.mat # NIL /\ Has(d.mats, p.mat) THEN Worse(h, Worse(Texture(d, d.mats[p.mat + 1].base), Texture(d, d.mats[p.mat + 1].rough))) ELSE h
(* the image that belongs to texture t *)
Pixels(d, t) == IF t = NIL THEN <<>> ELSE LET k == d.texs[t + 1].src IN <<10 + k, 20, 30, 40, 50 + k, 60>>

AllProper(d) ==
    /\ Plain(d)
    /\ \A i \in DOMAIN d.bufs : d.bufs[i] = Actual(d, i - 1)
    /\ \A i \in DOMAIN d.views : LET v == d.views[i] IN
         /\ Has(d.bufs, v.buffer) /\ v.off >= 0 /\ v.len > 0 /\ v.off + v.len <= d.bufs[v.buffer + 1] /\ StrideOk(v.stride) /\ v.off % 4 = 0
    /\ \A a \in 0..(Len(d.accs) - 1) : /\ Reaches(d, a) /\ d.accs[a + 1].comp \in {5120, 5121, 5122, 5123, 5125, 5126} /\ d.accs[a + 1].type \in Kinds
                                       /\ Inside(d, a) /\ Proper(d, a)
    /\ \A i \in DOMAIN d.prims : LET p == d.prims[i] IN
         /\ \A a \in {p.ind, p.pos, p.nrm} : Has(d.accs, a)
         /\ (p.uv = NIL \/ Has(d.accs, p.uv)) /\ Has(d.mats, p.mat)
         /\ Untextured(d, p) = "ok" /\ (p.uv = NIL \/ Textured(d, p) = "ok")
    /\ \A i \in DOMAIN d.mats : Texture(d, d.mats[i].base) = "ok" /\ Texture(d, d.mats[i].rough) = "ok"
    /\ \A i \in DOMAIN d.texs : d.texs[i].src # NIL /\ Has(d.imgs, d.texs[i].src)
    /\ \A i \in 0..(Len(d.imgs) - 1) : ImageOk(d, i) = "ok"

(* ---- a reader.  careful: it looks at the document first; trusting: it does not; packed: it passes over strides;
        wide: it takes every index for four bytes ---- *)
ReadStep(d, a, how) == IF how = "packed" THEN ElemSize(d, a) ELSE Step(d, a)
ReadSize(d, a, how, index) == IF how = "wide" /\ index THEN 4 ELSE ElemSize(d, a)
Refuses(d, a, how, index) ==
    \/ ~ Reaches(d, a)
    \/ how # "trusting" /\ ~ Inside(d, a)
    \/ how # "wide" /\ (d.accs[a + 1].comp \notin (IF index THEN {5121, 5123, 5125} ELSE {5126}) \/ d.accs[a + 1].type \notin Kinds)
ReadFirst(d, a, how, index, k) ==
    First(d, a) + (k - 1) * (IF how = "wide" /\ index THEN 4 ELSE ReadStep(d, a, how))
ReadFrom(d, a, how, index) ==
    {ReadFirst(d, a, how, index, k) + j : k \in 1..(IF Count(d, a) > 20 THEN 20 ELSE Count(d, a)), j \in 0..(ReadSize(d, a, how, index) - 1)}
=============================================================================
