-------------------------------- MODULE Eval --------------------------------
(* Scores of a submission against a ground truth, given the shape similarities.

   p.sc     scores of the detections          p.dcat  their categories
   p.gcat   categories of the ground truths   p.ev    their evaluated flags
   p.sim    similarities (hundredths)         p.ths   thresholds (hundredths, increasing)
   p.cats   evaluated categories
   p.dpos, p.gpos  positions (thousandths)                  p.dq, p.gq  rotations (integer quaternions)
   p.gsym   symmetries of the ground truths                                          *)
EXTENDS Assoc, AvgPrec, RotSym

ND(p) == Len(p.sc)
NG(p) == Len(p.gcat)
Dets(p) == 1..ND(p)
Gts(p) == 1..NG(p)

AgnosticOutcomes(p, k) == Outcomes(p.sc, p.sim, p.ths[k], Dets(p), Gts(p))
DetsOf(p, c) == {d \in Dets(p) : p.dcat[d] = c}
GtsOf(p, c) == {g \in Gts(p) : p.gcat[g] = c}
CategoryOutcomes(p, k, c) == Outcomes(p.sc, p.sim, p.ths[k], DetsOf(p, c), GtsOf(p, c))

(* ranked detections: matched to an evaluated ground truth = hit, unmatched = miss,
   matched to a non-evaluated one = not ranked at all *)
Ranked(p, D, m) == {d \in D : m[d] = 0 \/ p.ev[m[d]]}
Hit(p, m) == [d \in Dets(p) |-> IF m[d] # 0 THEN 1 ELSE 0]
APsAt(p, D, m, n) == APs(p.sc, Hit(p, m), Ranked(p, D, m), n)

AddSets(S, T) == {s + t : s \in S, t \in T}
RECURSIVE SumChoices(_)
SumChoices(seq) == IF seq = <<>> THEN {0} ELSE AddSets(Head(seq), SumChoices(Tail(seq)))

NEval(p) == Cardinality({g \in Gts(p) : p.ev[g]})
NEvalC(p, c) == Cardinality({g \in GtsOf(p, c) : p.ev[g]})

(* sums over thresholds of the average precisions; divide by Len(p.ths) *)
ShapeSums(p) ==
    SumChoices([k \in 1..Len(p.ths) |->
        UNION {APsAt(p, Dets(p), m, NEval(p)) : m \in AgnosticOutcomes(p, k)}])
ActiveCats(p) == SelectSeq(p.cats, LAMBDA c : NEvalC(p, c) > 0)
SemSums(p) ==
    LET cs == ActiveCats(p) IN
    SumChoices([j \in 1..(Len(p.ths) * Len(cs)) |->
        LET k == ((j - 1) \div Len(cs)) + 1
            c == cs[((j - 1) % Len(cs)) + 1]
        IN UNION {APsAt(p, DetsOf(p, c), m, NEvalC(p, c)) : m \in CategoryOutcomes(p, k, c)}])

(* pose error for given associations ms[k] *)
Dist2(a, b) == SumSeq([i \in 1..3 |-> (a[i] - b[i]) * (a[i] - b[i])])
EvalPairs(p, m) == {d \in Dets(p) : m[d] # 0 /\ p.ev[m[d]]}
TransMilli(p, d, g) == ISqrt(Dist2(p.dpos[d], p.gpos[g]))
RotMilliDeg(p, d, g) == AngleMilliDeg(p.dq[d], p.gq[g], p.gsym[g])
MeanOver(F(_), S) == SumSetF(F, S) \div Cardinality(S)
UsedThs(p, ms) == {k \in 1..Len(p.ths) : EvalPairs(p, ms[k]) # {}}
PoseTrans(p, ms) ==
    MeanOver(LAMBDA k : MeanOver(LAMBDA d : TransMilli(p, d, ms[k][d]), EvalPairs(p, ms[k])), UsedThs(p, ms))
PoseRot(p, ms) ==
    MeanOver(LAMBDA k : MeanOver(LAMBDA d : RotMilliDeg(p, d, ms[k][d]), EvalPairs(p, ms[k])), UsedThs(p, ms))
=============================================================================
