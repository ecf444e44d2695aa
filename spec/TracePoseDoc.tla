----------------------------- MODULE TracePoseDoc -----------------------------
(* Judges recorded pose serialisations (driver posedoc). *)
EXTENDS PoseDoc, TraceBase, Num
Rg == INSTANCE Rigid
VARIABLES l, bad
Parts(e) == IF e.kind = "rotation" THEN RotParts ELSE PoseParts
DocFails(e) == C(IF e.ok THEN "accepted-malformed-or-misplaced" ELSE "rejected", Allowed(Parts(e), [root |-> e.root, kids |-> e.kids], [ok |-> e.ok, got |-> e.got]))
Close(a, b, tol) == \A i \in DOMAIN a : \A j \in DOMAIN a[i] : Near(a[i][j], b[i][j], tol)
TripFails(e) == IF ~ e.ok THEN {"raised"} ELSE
    C("operand-changed", e.same) \cup C("shape", e.shape) \cup
    IF e.exact THEN C("rotation", e.r0 = e.r1) \cup C("translation", e.t0 = e.t1)
    ELSE C("rotation", Close(e.r0, e.r1, 30)) \cup C("translation", Close(e.t0, e.t1, 3))
         (* written as decimals, each component keeps its first significant digits, however small *)
         \cup C("digits", "each" \in DOMAIN e => \A i \in DOMAIN e.each : Near(e.each[i][1], e.each[i][2], 120 * (IF e.form = "xmltwice" THEN 2 ELSE 1)))
         \cup C("surreal-translation", e.form = "surreal" => e.x0 = e.x1)
(* a surreal record's quaternion (w first), its rotation, and the one written back *)
QuatFails(e) == IF ~ e.ok THEN {"raised"} ELSE
    LET n == Rg!QMat(e.q)[2] IN
    C("rotation", Rg!NearRat(e.r, 10000, Rg!QMat(e.q), 2)) \cup C("translation", e.t = e.want /\ e.ot = e.want)
    \cup C("written-quaternion", \E s \in {1, -1} : \A i \in 1..4 :
            Near(e.out[i], s * (IF e.q[i] < 0 THEN -1 ELSE 1) * ISqrt((100000000 \div n) * e.q[i] * e.q[i]), 3))
Fails(e) == CASE e.op = "doc" -> DocFails(e)
              [] e.op = "trip" -> TripFails(e)
              [] e.op = "record" -> C("record", e.got = e.want)
              [] e.op = "squat" -> QuatFails(e)
              [] e.op = "broken" -> C("accepted", e.raised) \cup C("not-ValueError", e.raised => e.valueerror)
              [] OTHER -> {"unknown-event"}
Init == l = 1 /\ bad = <<>>
Next == \/ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
        \/ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
