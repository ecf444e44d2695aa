---------------------------- MODULE TraceLayout ----------------------------
(* Judges calls of the bindings whose array arguments are laid out in memory by the plans of MCLayout (driver layout).
   base: the result for plain arrays; r: the result for the planned ones; arg, out, gone: what the object holds after the
   arguments were overwritten, what it holds after the arrays taken from it were overwritten, and what those arrays (other
   copies) hold after the object ended.  A result: [sig, nums]. *)
EXTENDS Layout, TraceBase
VARIABLES l, bad
Tol(e) == IF e.exact THEN 0 ELSE 1
SameResult(e, a, b) == /\ a.sig = b.sig /\ Len(a.nums) = Len(b.nums)
                       /\ \A i \in DOMAIN a.nums : Abs(a.nums[i] - b.nums[i]) <= Tol(e)
ArgFails(e, a) ==
    LET v == Lay(a.plan, a.shape) IN
    C("layout-not-as-planned", [off |-> a.off, shape |-> a.shape, strides |-> a.strides] = v /\ Len(a.buf) = Length(a.plan, a.shape))
    \cup C("array-is-not-its-value", Len(a.vals) = Prod(a.shape) /\ Read(a.buf, v) = a.vals)
    \cup C("argument-changed", a.after = a.buf)
Fails(e) ==
    IF e.op = "base" THEN C("plain-arrays-refused", e.ok) ELSE IF e.op # "call" THEN {"unknown-event"} ELSE
    UNION {ArgFails(e, e.args[i]) : i \in DOMAIN e.args}
    \cup C("plain-arrays-refused", e.ok \/ ~ e.plain)
    \cup (IF ~ e.ok THEN {} ELSE
          C("result-depends-on-layout", SameResult(e, e.r, e.base))
          \cup (IF ~ e.native THEN {} ELSE
                C("shares-memory-with-argument", SameResult(e, e.arg, e.r)) \cup C("shares-memory-with-result", SameResult(e, e.out, e.r))
                \cup C("result-ended-with-object", SameResult(e, e.gone, e.r))))
Init == l = 1 /\ bad = <<>>
Next == \/ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
        \/ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
