------------------------------- MODULE MCGlb -------------------------------
(* The packing algorithm, file by file, with a file that may be missing.  Buffers are appended first, then all views are
   moved, then the images are appended; the result is written at the end. *)
EXTENDS Glb, TLC, Json
CONSTANTS Pad,      \* every file is filled up to a multiple of 4 (FALSE: not)
          OwnBase,  \* a view is moved by the offset of its own buffer (FALSE: of the last buffer)
          KeepOff,  \* ... in addition to its own offset (FALSE: instead of it)
          Early,    \* the output is written file by file (the fault)
          BufLens, ImgLens, Views
VARIABLES src, miss, step, body, base, views, imgs, out
vars == <<src, miss, step, body, base, views, imgs, out>>
Bytes(k, n) == [i \in 1..n |-> 20 * k + i]
NoOut == "none"
BufSeqs == {<<a>> : a \in BufLens} \cup {<<a, b>> : a, b \in BufLens}
ImgSeqs == {<<>>} \cup {<<a>> : a \in ImgLens} \cup {<<a, b>> : a, b \in ImgLens}
(* views that fit into the buffers *)
ViewsOf(bl) == {v \in [b : 1..Len(bl), off : 0..4, len : 1..5] : v.off + v.len <= bl[v.b]}
ViewSeqs(bl) == {<<>>} \cup {<<a>> : a \in ViewsOf(bl)} \cup (IF Views = 2 THEN {<<a, b>> : a, b \in ViewsOf(bl)} ELSE {})
Source(bl, vs, il) == [bufs |-> [k \in DOMAIN bl |-> Bytes(k, bl[k])], views |-> vs, imgs |-> [k \in DOMAIN il |-> Bytes(5 + k, il[k])]]
NFiles(s) == Len(s.bufs) + Len(s.imgs)
Init == /\ \E bl \in BufSeqs, il \in ImgSeqs : \E vs \in ViewSeqs(bl) : src = Source(bl, vs, il)
        /\ miss \in 0..NFiles(src) /\ step = 0 /\ body = <<>> /\ base = <<>> /\ views = <<>> /\ imgs = <<>> /\ out = NoOut
Fill(s) == IF Pad THEN s \o [i \in 1..((4 - (Len(s) % 4)) % 4) |-> 0] ELSE s
NB == Len(src.bufs)
Running == step >= 0 /\ step <= NFiles(src)
(* the next file is missing *)
Fail == step >= 0 /\ step < NFiles(src) /\ miss = step + 1 /\ step' = -1 /\ UNCHANGED <<src, miss, body, base, views, imgs, out>>
Buffer == /\ step >= 0 /\ step < NB /\ miss # step + 1 /\ step' = step + 1
          /\ base' = Append(base, Len(body)) /\ body' = body \o Fill(src.bufs[step + 1])
          /\ views' = IF step + 1 < NB THEN views ELSE
                [i \in DOMAIN src.views |-> LET v == src.views[i] IN
                    [off |-> (IF OwnBase THEN base'[v.b] ELSE base'[NB]) + (IF KeepOff THEN v.off ELSE 0), len |-> v.len]]
          /\ out' = IF Early THEN "partial" ELSE out
          /\ UNCHANGED <<src, miss, imgs>>
Image == /\ step >= NB /\ step < NFiles(src) /\ miss # step + 1 /\ step' = step + 1
         /\ LET s == src.imgs[step - NB + 1] IN
            /\ body' = body \o Fill(s) /\ views' = Append(views, [off |-> Len(body), len |-> Len(Fill(s))])
            /\ imgs' = Append(imgs, Len(views) + 1)
         /\ UNCHANGED <<src, miss, base, out>>
Write == step = NFiles(src) /\ step' = step + 1 /\ out' = "whole" /\ UNCHANGED <<src, miss, body, base, views, imgs>>
Next == Fail \/ Buffer \/ Image \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Out == [body |-> body, views |-> views, imgs |-> imgs]
InvPacked == out = "whole" => Packed(src, Out) /\ miss = 0 /\ (Len(body) % 4 = 0)
InvNothing == step = -1 => out = NoOut
Ends == <>(step = -1 \/ out = "whole")
Shape == [bufs |-> [k \in DOMAIN src.bufs |-> Len(src.bufs[k])], views |-> src.views, imgs |-> [k \in DOMAIN src.imgs |-> Len(src.imgs[k])], miss |-> miss]
Emit == step = 0 => PrintT(<<"OUT", ToJson(Shape)>>)
=============================================================================
