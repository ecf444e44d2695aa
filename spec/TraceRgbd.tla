------------------------------ MODULE TraceRgbd ------------------------------
(* Judges recorded histories of RGB-D files (driver rgbd): three paths. *)
EXTENDS Rgbd, InvDepth, TraceBase
VARIABLES l, bad, fs, sums
PINF == 2000000002
(* a file: st "none" | "whole" | "torn" (a load fails, or gives old, or gives pages) | "bad" (a load fails);
   pages: [t, w, h, px] with depth as 16-bit codes (t "invdepth") or 8-bit codes (t "depth8"); near p/q;
   old: what a torn file held before: a sequence of at most one [pages, p, q] *)
None == [st |-> "none", pages |-> <<>>, p |-> 1, q |-> 1, old |-> <<>>]
Body(f) == [pages |-> f.pages, p |-> f.p, q |-> f.q]
(* ------------------------------------------------------------------ saving *)
CodeOk(e, m, n, code) ==
    IF n < 0 THEN code = 0 ELSE
    LET v == Enc(65535, e.p, e.q, n, m) IN
    \/ code = v
    \/ ~ e.exact /\ n # 0 /\ n * e.q > e.p * m
       /\ LET r == (2 * e.p * m * 65535 + e.q * n) % (2 * e.q * n) IN
          (r <= (2 * e.q * n) \div 100 /\ code = v - 1) \/ (r >= 2 * e.q * n - (2 * e.q * n) \div 100 - 1 /\ code = v + 1)
    \/ ~ e.exact /\ n * e.q = e.p * m /\ code = 65535
PageOk(e, im, pg) ==
    /\ pg.w = im.w /\ pg.h = im.h /\ Len(pg.px) = Len(im.px)
    /\ pg.t = (IF im.t = "depth" THEN "invdepth" ELSE im.t)
    /\ IF im.t = "depth" THEN \A i \in DOMAIN im.px : CodeOk(e, im.m, im.px[i], pg.px[i]) ELSE pg.px = im.px
FileOk(e) == /\ e.file.err = "" /\ e.file.near /\ e.file.version /\ e.file.numbers
             /\ Len(e.file.pages) = Len(e.ims)
             /\ [i \in DOMAIN e.file.pages |-> e.file.pages[i].t] = Ordered({e.types[i] : i \in DOMAIN e.types})
             /\ \A i \in DOMAIN e.ims : PageOk(e, e.ims[i], e.file.pages[i])
Saved(e) == [st |-> "whole", pages |-> e.file.pages, p |-> e.p, q |-> e.q, old |-> <<>>]
(* an interrupted save: the images as far as they are known without the file (depths in codes only) *)
Known(e) == IF \A i \in DOMAIN e.ims : e.ims[i].t # "depth" THEN <<[pages |-> [i \in DOMAIN e.ims |-> [t |-> e.ims[i].t, w |-> e.ims[i].w, h |-> e.ims[i].h, px |-> e.ims[i].px]], p |-> e.p, q |-> e.q]>> ELSE <<>>
Torn(f, e) == IF e.file.err = "" /\ FileOk(e) THEN Saved(e)
              ELSE [st |-> "torn", pages |-> <<>>, p |-> e.p, q |-> e.q, old |-> (IF f.st = "whole" THEN <<Body(f)>> ELSE <<>>) \o Known(e)]
(* ------------------------------------------------------------------ files of other writers *)
TypeOf(pg) == IF pg.name = "" THEN (IF pg.ch = 3 THEN "rgb" ELSE "invdepth")
              ELSE CASE pg.name \in {"depth", "inv_depth"} -> "invdepth" [] pg.name = "semantic" -> "category" [] OTHER -> pg.name
ForeignPages(e) == [i \in DOMAIN e.pages |-> LET t == TypeOf(e.pages[i]) IN
    [t |-> IF t = "invdepth" /\ e.pages[i].bits = 8 THEN "depth8" ELSE t, w |-> e.pages[i].im.w, h |-> e.pages[i].im.h, px |-> e.pages[i].im.px]]
ForeignFile(e) == [st |-> IF e.bad THEN "bad" ELSE "whole", pages |-> ForeignPages(e), p |-> e.p, q |-> e.q, old |-> <<>>]
(* ------------------------------------------------------------------ loading *)
HasType(ps, t) == \E i \in DOMAIN ps : ps[i].t = t
Page(ps, t) == ps[CHOOSE i \in DOMAIN ps : ps[i].t = t]
(* 16-bit codes an 8-bit code may become *)
Wide(c) == LET v == Legacy(1, 1, 3, 10, c) den == 20
               r == IF c = 0 THEN 10 ELSE (2 * 257 * c * 3 + 10) % den
           IN {v} \cup (IF r <= 0 THEN {v - 1} ELSE {}) \cup (IF r >= den - 1 THEN {v + 1} ELSE {})
DepthPx(v, code, p, k) == IF code = 0 THEN v = PINF ELSE LET x == (p * 65535 * k) \div code IN Near(v, x, 2 + x \div 5000000)
DepthOk(im, b) ==
    IF HasType(b.pages, "invdepth") THEN
        LET pg == Page(b.pages, "invdepth") IN
        im.w = pg.w /\ im.h = pg.h /\ Len(im.px) = Len(pg.px) /\ im.p = b.p /\ im.q = b.q
        /\ IF im.k = 0 THEN im.px = pg.px ELSE \A i \in DOMAIN im.px : DepthPx(im.px[i], pg.px[i], b.p, im.k)
    ELSE HasType(b.pages, "depth8") /\
        LET pg == Page(b.pages, "depth8") IN
        im.w = pg.w /\ im.h = pg.h /\ Len(im.px) = Len(pg.px) /\ im.p = 3 /\ im.q = 10
        /\ \A i \in DOMAIN im.px : \E c \in Wide(pg.px[i]) : DepthPx(im.px[i], c, 3, im.k)
LoadTypes(b, api) ==
    LET all == {IF b.pages[i].t \in {"invdepth", "depth8"} THEN "depth" ELSE b.pages[i].t : i \in DOMAIN b.pages} IN
    IF api = "r360" THEN all \cap {"rgb", "depth"} ELSE all
ImOk(im, b) == IF im.t = "depth" THEN DepthOk(im, b)
               ELSE HasType(b.pages, im.t) /\ LET pg == Page(b.pages, im.t) IN im.w = pg.w /\ im.h = pg.h /\ im.px = pg.px
Gives(e, b) == /\ {e.ims[i].t : i \in DOMAIN e.ims} = LoadTypes(b, e.api) /\ Len(e.ims) = Cardinality(LoadTypes(b, e.api))
               /\ \A i \in DOMAIN e.ims : ImOk(e.ims[i], b)
Loadable(b, api) == api # "rci" \/ {"category", "instance"} \subseteq LoadTypes(b, api)
LoadFails(e) ==
    LET f == fs[e.f] IN
    CASE f.st \in {"none", "bad"} -> C("raises", ~ e.ok)
      [] f.st = "whole" -> IF ~ Loadable(f, e.api) THEN C("raises", ~ e.ok)
                           ELSE C("loads", e.ok) \cup C("types", e.types) \cup C("content", ~ e.ok \/ Gives(e, Body(f)))
      [] f.st = "torn" -> C("all-or-nothing", ~ e.ok \/ \E i \in DOMAIN f.old : Gives(e, f.old[i]))
(* ------------------------------------------------------------------ events *)
NextFs(e) ==
    CASE e.op = "save" -> IF e.ok THEN [fs EXCEPT ![e.f] = Saved(e)]
                          ELSE IF e.limited THEN [fs EXCEPT ![e.f] = Torn(@, e)] ELSE fs
      [] e.op = "cut" -> [fs EXCEPT ![e.f] = IF @.st = "whole" THEN [st |-> "torn", pages |-> <<>>, p |-> @.p, q |-> @.q, old |-> <<Body(@)>>] ELSE @]
      [] e.op = "remove" -> [fs EXCEPT ![e.f] = None]
      [] e.op = "foreign" -> [fs EXCEPT ![e.f] = ForeignFile(e)]
      [] e.op = "resave" -> [fs EXCEPT ![e.g] = [st |-> "whole", pages |-> e.file.pages, p |-> fs[e.f].p, q |-> fs[e.f].q, old |-> <<>>]]
      [] OTHER -> fs
SaveFails(e) ==
    C("saved-file", ~ e.ok \/ FileOk(e)) \cup C("images-changed", e.kept)
    \cup C("refused", e.ok \/ e.limited \/ e.strided)
Writes(e) == e.op \in {"cut", "remove", "foreign"} \/ (e.op = "save" /\ (e.ok \/ e.limited))
Target(e) == IF e.op = "resave" THEN {e.g} ELSE IF Writes(e) THEN {e.f} ELSE {}
OpFails(e) ==
    CASE e.op = "save" -> SaveFails(e)
      [] e.op = "refuse" -> C("raises", ~ e.ok)
            \cup C("exception", e.ok \/ CASE e.what \in {"rgb", "depth", "unknown"} -> e.value
                     [] e.what \in {"new-rgb", "new-range", "new-category", "new-instance", "new360-rgb", "new360-range"} -> e.type [] OTHER -> TRUE)
      [] e.op = "resave" ->
            C("resaved", e.ok) \cup (IF fs[e.f].st # "whole" \/ HasType(fs[e.f].pages, "depth8") THEN {}
              ELSE C("resaved-file", ~ e.ok \/ (e.file.err = "" /\ e.file.near /\
                    {e.file.pages[i] : i \in DOMAIN e.file.pages} = {fs[e.f].pages[i] : i \in DOMAIN fs[e.f].pages})))
      [] e.op = "load" -> LoadFails(e)
      [] e.op \in {"cut", "remove", "foreign"} -> {}
      [] OTHER -> {"unknown-event"}
Fails(e) == OpFails(e) \cup C("other-files", \A i \in 1..3 : i \in Target(e) \/ e.files[i] = sums[i]) \cup C("left-behind", e.extra)
Fs0 == [i \in 1..3 |-> None]
Sums0 == <<"", "", "">>
Init == l = 1 /\ bad = <<>> /\ fs = Fs0 /\ sums = Sums0
Stale == l <= N /\ "new" \in DOMAIN Log[l] /\ sums # Sums0
Next == \/ Stale /\ fs' = Fs0 /\ sums' = Sums0 /\ UNCHANGED <<l, bad>>
        \/ l <= N /\ ~ Stale /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1 /\ fs' = NextFs(Log[l]) /\ sums' = Log[l].files
        \/ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED <<bad, fs, sums>>
Spec == Init /\ [][Next]_<<l, bad, fs, sums>>
=============================================================================
