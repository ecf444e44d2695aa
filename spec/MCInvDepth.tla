----------------------------- MODULE MCInvDepth -----------------------------
(* A measurement is stored as a code, read back as a depth, stored again, ... *)
EXTENDS InvDepth, TLC
CONSTANTS Mx, Nears, DMax, M
NearSet == {<<3, 10>>, <<1, 2>>, <<1, 1>>, <<7, 8>>}
VARIABLES near, d, code, back, step
P == near[1]
Q == near[2]
Init == near \in Nears /\ d \in 0..DMax /\ code = 0 /\ back = <<1, 0>> /\ step = 0
Store == step = 0 /\ code' = Enc(Mx, P, Q, d, M) /\ step' = 1 /\ UNCHANGED <<near, d, back>>
Load == step \in {1, 3} /\ back' = Dec(Mx, P, Q, code) /\ step' = step + 1 /\ UNCHANGED <<near, d, code>>
Restore == step = 2 /\ code' = (IF back[2] = 0 THEN 0 ELSE Enc(Mx, P, Q, back[1], back[2])) /\ step' = 3 /\ UNCHANGED <<near, d, back>>
Next == Store \/ Load \/ Restore
Spec == Init /\ [][Next]_<<near, d, code, back, step>>
E0(x) == Enc(Mx, P, Q, x, M)
InvRange == code \in 0..Mx
InvIdem == step = 3 => code = E0(d)                                   \* storing again changes nothing
InvMono == d >= 2 => E0(d) <= E0(d - 1)
InvNear == d > 0 => (d * Q <= P * M => E0(d) = Mx)
InvUnknown == step \in {2, 4} => (code = 0 <=> back[2] = 0)
(* the depth read back is within one quantisation step of the one stored: it lies between the depths of
   the neighbouring codes *)
LeR(a, b) == a[1] * b[2] <= b[1] * a[2]
InvStep == step = 2 /\ d > 0 /\ d * Q >= P * M =>
    /\ (code < Mx => LeR(Dec(Mx, P, Q, code + 1), <<d, M>>))
    /\ (code > 1 => LeR(<<d, M>>, Dec(Mx, P, Q, code - 1)))
InvBijection == \A a \in 0..Mx : LET b == Dec(Mx, P, Q, a) IN (IF b[2] = 0 THEN 0 ELSE Enc(Mx, P, Q, b[1], b[2])) = a
InvLegacy == Mx = 255 => \A c \in 0..255 : Legacy(P, Q, P, Q, c) = 257 * c
=============================================================================
