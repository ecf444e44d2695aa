--------------------------- MODULE TraceDownloader ---------------------------
(* Judges recorded runs of the downloader (driver download): the state of every listed archive before
   and after each run, however the run ended. *)
EXTENDS Downloader, TraceBase
VARIABLES l, bad
Set(x) == {x[i] : i \in DOMAIN x}
S(r) == [zip |-> r.zip, ext |-> Set(r.ext), mark |-> r.mark]
Plain(o) == IF o \in {"ok", "nolength"} THEN "ok" ELSE IF o = "bad" THEN "bad" ELSE "fail"
Outs(x) == [i \in 1..Retries |-> Plain(x.outs[IF i <= Len(x.outs) THEN i ELSE Len(x.outs)])]
D01(e, x) == LET b == S(x.b) a == S(x.a) all == Set(e.all) IN
    C("marked-unextracted", (a.mark /\ ~ b.mark) => a.ext = all)
    \cup C("deleted-unextracted", (b.zip = "full" /\ a.zip # "full") => a.ext = all)
    \cup C("complete-not-left-alone", b.mark => (a = b /\ ~ x.touched /\ x.reqs = 0))
D02(e, x) == LET b == S(x.b) a == S(x.a) all == Set(e.all) o == Outs(x) IN
    C("too-many-requests", x.reqs <= Retries)
    \cup C("requested-again", Wanted(b) \/ x.reqs = 0)
    \cup C("torn-archive", a.zip = "bad" => (b.zip = "bad" \/ "bad" \in Set(o)))
    \cup (IF e.kind # "done" THEN {}
          ELSE IF ~ e.space \/ ~ e.config THEN C("refused-run-changed", a = b /\ x.reqs = 0)
          ELSE IF ~ e.room THEN {}
          ELSE C("requests", x.reqs = Requests(b, o)) \cup C("result", a = After(b, o, all)))
Fails(e) == CASE e.op = "run" ->
               UNION {IF IOEnv.VF_WHAT = "D01" THEN D01(e, e.arch[i]) ELSE D02(e, e.arch[i]) : i \in DOMAIN e.arch}
               \cup (IF IOEnv.VF_WHAT = "D01" THEN {} ELSE C("unlisted-request", e.other = 0) \cup C("does-not-stop", e.kind # "hang"))
          [] OTHER -> {"unknown-event"}
Init == l = 1 /\ bad = <<>>
Next == \/ /\ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
