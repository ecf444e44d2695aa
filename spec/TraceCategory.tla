---------------------------- MODULE TraceCategory ----------------------------
(* Judges recorded queries (driver category): a run opens a table, then queries it. *)
EXTENDS Category, TraceBase
VARIABLES l, bad, t
Same(e, r) == IF r.ok THEN C("raised", e.ok) \cup (IF e.ok THEN C("wrong-color", e.v = r.v) ELSE {})
              ELSE C("not-rejected", ~ e.ok) \cup (IF ~ e.ok THEN C("wrong-error", r.v \in {e.err[i] : i \in DOMAIN e.err}) ELSE {})
Fails(e) == CASE e.op = "open" -> (IF e.exists THEN C("raised", e.ok) ELSE C("not-rejected", ~ e.ok) \cup (IF e.ok THEN {} ELSE C("wrong-error", "OSError" \in {e.err[i] : i \in DOMAIN e.err})))
              [] e.op = "id" -> Same(e, ColorOfId(t, e.id))
              [] e.op = "name" -> Same(e, ColorOfName(t, e.name))
              [] e.op = "image" -> Same(e, Image(t, e.im)) \cup C("input-changed", e.same)
              [] e.op = "lut" -> Same(e, [ok |-> TRUE, v |-> Lut(t)])
              [] OTHER -> {"unknown-event"}
Init == l = 1 /\ bad = <<>> /\ t = <<>>
Next == \/ /\ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
           /\ t' = IF Log[l].op = "open" THEN Log[l].table ELSE t
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED <<bad, t>>
Spec == Init /\ [][Next]_<<l, bad, t>>
=============================================================================
