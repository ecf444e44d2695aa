------------------------------ MODULE TraceGlb ------------------------------
(* Judges recorded histories of packing (driver glb): one source folder whose files are edited, removed and put back,
   and several outputs. *)
EXTENDS Glb, TraceBase, FiniteSets
VARIABLES l, bad, src, gone, outs
(* outs: number of an output -> what it must hold: <<>> (absent) or <<source when packed>> *)
Nothing == [bufs |-> <<>>, views |-> <<>>, imgs |-> <<>>, rest |-> 0, meta |-> <<>>]
SourceOf(x) == [bufs |-> x.bufs, views |-> x.views, imgs |-> x.imgs, rest |-> x.rest, meta |-> x.meta]
NextSrc(e) == CASE e.op = "source" -> SourceOf(e.src)
                [] e.op = "edit" /\ e.img = 0 -> [src EXCEPT !.bufs[e.k] = e.bytes]
                [] e.op = "edit" /\ e.img = 1 -> [src EXCEPT !.imgs[e.k] = e.bytes]
                [] OTHER -> src
NextGone(e) == CASE e.op = "remove" -> gone \cup {e.k} [] e.op = "restore" -> gone \ {e.k} [] OTHER -> gone
Good(e) == e.op = "pack" /\ gone = {}
NextOuts(e) == IF Good(e) THEN [outs EXCEPT ![e.out] = <<src>>] ELSE outs
(* ------------------------------------------------------------------ one packed file *)
Fmt(f, s) ==
    IF f.err # "" THEN {"container"} ELSE
    C("total-length", f.total = f.size /\ f.size % 4 = 0 /\ f.jlen % 4 = 0 /\ f.blen % 4 = 0 /\ f.size = 12 + 8 + f.jlen + 8 + f.blen)
    \cup C("json-padding", f.jpad)
    \cup C("one-buffer", f.nbuf = 1 /\ ~ f.uri /\ f.byteLength <= Len(f.body) /\ Len(f.body) <= f.byteLength + 3)
    \cup C("rest-kept", f.rest = s.rest)
    \cup C("view-fields", Len(f.meta) >= Len(s.meta) /\ SubSeq(f.meta, 1, Len(s.meta)) = s.meta)
    \cup C("image-types", f.types)
    \cup (IF Len(f.views) < Len(s.views) \/ Len(f.imgs) # Len(s.imgs) THEN {"counts"} ELSE
          C("view-bytes", \A i \in DOMAIN s.views : ViewKept(s, f, i))
          \cup C("view-alignment", \A i \in DOMAIN s.views : ViewAligned(s, f, i))
          \cup C("image-bytes", \A k \in DOMAIN s.imgs : ImageKept(s, f, k))
          \cup C("image-alignment", \A k \in DOMAIN s.imgs : ImageAligned(s, f, k))
          \cup C("overlap", NoOverlap(s, f)))
(* every output that exists, after every event *)
OutFails(e) ==
    LET o == NextOuts(e) IN
    C("outputs", {x.out : x \in {e.outs[i] : i \in DOMAIN e.outs}} = {k \in DOMAIN o : o[k] # <<>>})
    \cup UNION {IF o[e.outs[i].out] = <<>> THEN {} ELSE Fmt(e.outs[i].f, o[e.outs[i].out][1]) : i \in DOMAIN e.outs}
OpFails(e) ==
    CASE e.op \in {"source", "edit", "remove", "restore"} -> {}
      [] e.op = "pack" -> C("raises", e.ok = (gone = {}))
      [] e.op = "junk" -> C("raises", ~ e.ok)
      [] e.op = "model" -> C("loadable", e.ok) \cup C("same-content", ~ e.ok \/ e.same)
      [] OTHER -> {"unknown-event"}
Fails(e) == OpFails(e) \cup OutFails(e) \cup C("source-untouched", e.kept)
Outs0 == [i \in 1..4 |-> <<>>]
Init == l = 1 /\ bad = <<>> /\ src = Nothing /\ gone = {} /\ outs = Outs0
Stale == l <= N /\ "new" \in DOMAIN Log[l] /\ (src # Nothing \/ outs # Outs0 \/ gone # {})
Next == \/ Stale /\ src' = Nothing /\ gone' = {} /\ outs' = Outs0 /\ UNCHANGED <<l, bad>>
        \/ /\ l <= N /\ ~ Stale
           /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
           /\ src' = NextSrc(Log[l]) /\ gone' = NextGone(Log[l]) /\ outs' = NextOuts(Log[l])
        \/ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED <<bad, src, gone, outs>>
Spec == Init /\ [][Next]_<<l, bad, src, gone, outs>>
=============================================================================
