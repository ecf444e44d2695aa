----------------------------- MODULE Perceptual -----------------------------
(* The perceptual score at one threshold, in units of 1 / ExpScale.

   p as in Eval, and p.dsize, p.gsize: sizes of the bounding boxes (integers),
   positions in thousandths, p.perc: settings (means and deviations in thousandths).   *)
EXTENDS Eval

Volume(s) == s[1] * s[2] * s[3]
Floor(s) == s[1] * s[3]
GtFloor(p) == SumSetF(LAMBDA g : Floor(p.gsize[g]), {g \in Gts(p) : p.gcat[g] = "floor" /\ p.ev[g]})
SubFloor(p) == SumSetF(LAMBDA d : Floor(p.dsize[d]), {d \in Dets(p) : p.dcat[d] = "floor"})
(* room scale as a fraction *)
RoomNum(p) == IF GtFloor(p) > 0 THEN SubFloor(p) ELSE 0
RoomDen(p) == IF GtFloor(p) > 0 THEN GtFloor(p) ELSE 1

(* weight * exp(-(x - mean)^2 / (2 std^2)), all three in units of 1/u *)
Gauss(w, x, mean, std) ==
    LET d == Abs(x - mean) IN
    IF d > 5 * std THEN 0 ELSE w * ExpBig(d * d, 2 * std * std)
GaussRatio(s, num, den) == \* x = num / den, resolution 1/10000
    Gauss(s.w, DivRound(num, 10000, den), s.mean * 10, s.std * 10)
GaussMilli(s, x) == Gauss(s.w, x, s.mean, s.std)

HorizontalTerm(s, a, b) == \* horizontal distance of two positions: x and z only
    LET d2 == (a[1] - b[1]) * (a[1] - b[1]) + (a[3] - b[3]) * (a[3] - b[3]) IN
    IF s.mean = 0
    THEN IF d2 > 25 * s.std * s.std THEN 0 ELSE s.w * ExpBig(d2, 2 * s.std * s.std)
    ELSE Gauss(s.w, IF d2 < 20000000 THEN ISqrt(d2 * 100) ELSE 10 * ISqrt(d2), s.mean * 10, s.std * 10)

PairScore(p, d, g) ==
    LET gv == Volume(p.gsize[g])
        dv == Volume(p.dsize[d]) IN
    (IF gv > 0 THEN GaussRatio(p.perc.true_obj_scale, dv, gv) ELSE 0)
    + (IF gv > 0 /\ RoomNum(p) > 0
       THEN GaussRatio(p.perc.relative_obj_scale, dv * RoomDen(p), gv * RoomNum(p)) ELSE 0)
    + HorizontalTerm(p.perc.translation, p.dpos[d], p.gpos[g])
    + GaussMilli(p.perc.elevation, p.dpos[d][2] - p.gpos[g][2])
PairMax(p, g) ==
    LET gv == Volume(p.gsize[g]) IN
    (IF gv > 0 THEN p.perc.true_obj_scale.w ELSE 0)
    + (IF gv > 0 /\ RoomNum(p) > 0 THEN p.perc.relative_obj_scale.w ELSE 0)
    + p.perc.translation.w + p.perc.elevation.w

Missed(p, m) == {g \in Gts(p) : p.ev[g] /\ \A d \in Dets(p) : m[d] # g}
Extra(p, m) == {d \in Dets(p) : m[d] = 0}
Matched(p, m) == {d \in Dets(p) : m[d] # 0 /\ p.ev[m[d]]}

RawScore(p, m) ==
    GaussRatio(p.perc.room_scale, RoomNum(p), RoomDen(p))
    + SumSetF(LAMBDA d : PairScore(p, d, m[d]), Matched(p, m))
    - ExpScale * (p.perc.missed_weight * SumSetF(LAMBDA g : Volume(p.gsize[g]), Missed(p, m))
                  + p.perc.extra_weight * SumSetF(LAMBDA d : Volume(p.dsize[d]), Extra(p, m)))
MaxScore(p, m) ==
    p.perc.room_scale.w + SumSetF(LAMBDA d : PairMax(p, m[d]), Matched(p, m))
Perc(p, m) == IF RawScore(p, m) <= 0 THEN 0 ELSE RawScore(p, m) \div MaxScore(p, m)
PercSums(p) == SumChoices([k \in 1..Len(p.ths) |-> {Perc(p, m) : m \in AgnosticOutcomes(p, k)}])
=============================================================================
