----------------------------- MODULE MCAvgPrec -----------------------------
(* Ranked detections arriving one at a time: what the average precision has to satisfy. *)
EXTENDS AvgPrec, TLC
CONSTANTS MaxLen, MaxN
VARIABLES ms, n
vars == <<ms, n>>
Hits(s) == Tp(s, Len(s))
Init == ms = <<>> /\ n \in 1..MaxN
TruePositive == Len(ms) < MaxLen /\ Hits(ms) < n /\ ms' = Append(ms, 1) /\ UNCHANGED n
FalsePositive == Len(ms) < MaxLen /\ ms' = Append(ms, 0) /\ UNCHANGED n
Next == TruePositive \/ FalsePositive
Spec == Init /\ [][Next]_vars
InvRange == 0 <= AP(ms, n) /\ AP(ms, n) <= AU
InvPerfect == AP(ms, n) = AU <=> /\ Hits(ms) = n
                                 /\ \A i \in 1..n : i <= Len(ms) /\ ms[i] = 1
InvZero == AP(ms, n) = 0 <=> Hits(ms) = 0
InvMonotoneCurve == \A i \in 1..Len(ms) : \A j \in i..Len(ms) : Interp(ms, j) <= Interp(ms, i)
(* moving a hit one rank up never hurts *)
Swap(s, i) == [s EXCEPT ![i] = s[i + 1], ![i + 1] = s[i]]
InvRankUp == \A i \in 1..(Len(ms) - 1) :
    (ms[i] = 0 /\ ms[i + 1] = 1) => AP(Swap(ms, i), n) >= AP(ms, n)
(* a false positive ranked last changes nothing; anywhere it never helps *)
ActTail == FalsePositive => AP(ms', n) = AP(ms, n)
PropTail == [][ActTail]_vars
InvExtra == \A i \in 1..Len(ms) : ms[i] = 0 =>
    AP([j \in 1..(Len(ms) - 1) |-> IF j < i THEN ms[j] ELSE ms[j + 1]], n) >= AP(ms, n)
=============================================================================
