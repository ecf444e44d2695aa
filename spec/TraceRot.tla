------------------------------ MODULE TraceRot ------------------------------
(* Judges rotation errors recorded from the real evaluator (driver rot_err) against RotSym. *)
EXTENDS RotSym, TraceBase
VARIABLES l, bad
(* sin^2(error / 2) in millionths *)
Millionths(num, den) == ((num * 1000) \div den) * 1000 + (((num * 1000) % den) * 1000) \div den
Fails(e) ==
    IF ~ e.ok THEN {"raised"}
    ELSE LET f == BestCos2(QPrim(e.d), QPrim(e.g), e.sym)
         IN C("rotation-error", Near(e.sin2, Millionths(f[2] - f[1], f[2]), 3))
            \cup C("rotation-error-zero", f[1] = f[2] => Near(e.sin2, 0, 1))
Init == l = 1 /\ bad = <<>>
Next == \/ /\ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
