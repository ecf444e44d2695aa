--------------------------- MODULE TraceContract ---------------------------
(* Judges calls of the bindings (driver contract): every one in a process of its own. *)
EXTENDS Contract, TraceBase
VARIABLES l, bad
(* asks for more memory than there is *)
Exhausts(e) == e.api = "tmesh.renumber" /\ e.args[2].k = "huge"
Fails(e) ==
    IF e.op = "skip" THEN {} ELSE IF e.op # "call" THEN {"unknown-event"} ELSE
    LET v == Verdict(e) IN
    IF e.died THEN {"ended-the-process"}
    ELSE C("raised", v # "ok" \/ e.ok) \cup C("accepted", v # "refuse" \/ ~ e.ok) \cup C("changed-an-argument", e.same \/ Exhausts(e))
Init == l = 1 /\ bad = <<>>
Next == \/ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
        \/ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
