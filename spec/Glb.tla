-------------------------------- MODULE Glb --------------------------------
(* Packing a glTF model, whose data are in external files, into one glb file.
   A source:  [bufs, views, imgs]: buffers and images are sequences of bytes; a view is [b, off, len] (b: buffer from 1).
   A packed file: [body, views, imgs]: one sequence of bytes, the views into it [off, len] (those of the source, then
   those made for images), and for each image the number of its view (from 1). *)
EXTENDS Integers, Sequences
Cut(s, off, len) == SubSeq(s, off + 1, off + len)
In(s, off, len) == off >= 0 /\ len >= 0 /\ off + len <= Len(s)
ViewKept(src, out, i) ==
    LET v == src.views[i] w == out.views[i] IN
    /\ w.len = v.len /\ In(out.body, w.off, w.len)
    /\ Cut(out.body, w.off, w.len) = Cut(src.bufs[v.b], v.off, v.len)
ViewAligned(src, out, i) == (out.views[i].off - src.views[i].off) % 4 = 0
(* up to three bytes may follow the image *)
ImageKept(src, out, k) ==
    /\ out.imgs[k] \in DOMAIN out.views
    /\ LET w == out.views[out.imgs[k]] n == Len(src.imgs[k]) IN
       In(out.body, w.off, w.len) /\ w.len >= n /\ w.len <= n + 3 /\ Cut(out.body, w.off, n) = src.imgs[k]
ImageAligned(src, out, k) == out.imgs[k] \in DOMAIN out.views /\ out.views[out.imgs[k]].off % 4 = 0
Apart(a, b) == a.off + a.len <= b.off \/ b.off + b.len <= a.off
(* the views of different files of the source do not share bytes *)
NoOverlap(src, out) ==
    \A i, j \in DOMAIN out.views :
        i < j /\ (j > Len(src.views) \/ src.views[i].b # src.views[j].b) => Apart(out.views[i], out.views[j])
Packed(src, out) ==
    /\ Len(out.views) >= Len(src.views) /\ Len(out.imgs) = Len(src.imgs)
    /\ \A i \in DOMAIN src.views : ViewKept(src, out, i) /\ ViewAligned(src, out, i)
    /\ \A k \in DOMAIN src.imgs : ImageKept(src, out, k) /\ ImageAligned(src, out, k)
    /\ NoOverlap(src, out)
=============================================================================
