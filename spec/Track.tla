------------------------------- MODULE Track -------------------------------
(* The three evaluation tracks on integer geometry: shapes are boxes or point sets with integer
   local coordinates in units of p.u thousandths of a metre, poses are cube rotations plus
   integer translations, so that every similarity is an exact fraction.

   p.kind   "bounding_box", "voxels" or "meshes"
   p.dpts, p.gpts   local points (voxel centres / mesh points) of every object
   p.dcol, p.gcol   their colours (meshes)
   p.dmin/dsize, p.gmin/gsize   boxes
   p.dposu, p.gposu translations      p.t2  twice the overlap threshold, in units           *)
EXTENDS Perceptual

Rot(q, v) == LET r == QMul(QMul(q, <<0, v[1], v[2], v[3]>>), QConj(q))
                 n == QNorm2(q)
             IN <<r[2] \div n, r[3] \div n, r[4] \div n>>
Plus(a, b) == [i \in 1..3 |-> a[i] + b[i]]
PosePoint(q, t, v) == Plus(Rot(q, v), t)

(* -- point sets -- *)
Dist2s(x, T) == {Dist2(x, y) : y \in Rng(T)}
Nearest2(x, T) == MinSet(Dist2s(x, T))
Overlaps(S, T, t2) == IF T = <<>> THEN 0 ELSE Cardinality({i \in DOMAIN S : 4 * Nearest2(S[i], T) <= t2 * t2})
PointsInter(S, T, t2) == Overlaps(S, T, t2) + Overlaps(T, S, t2)
PointsTotal(S, T) == Len(S) + Len(T)
PointsIoU(S, T, t2) == <<PointsInter(S, T, t2), MaxI(1, PointsTotal(S, T))>>

(* -- posed boxes -- *)
BoxOf(q, t, mn, size) ==
    LET a == PosePoint(q, t, mn)
        b == PosePoint(q, t, Plus(mn, size))
    IN [lo |-> [i \in 1..3 |-> MinI(a[i], b[i])], hi |-> [i \in 1..3 |-> MaxI(a[i], b[i])]]
Extent(a, b, i) == MaxI(0, MinI(a.hi[i], b.hi[i]) - MaxI(a.lo[i], b.lo[i]))
VolB(a) == (a.hi[1] - a.lo[1]) * (a.hi[2] - a.lo[2]) * (a.hi[3] - a.lo[3])
BoxInter(a, b) == Extent(a, b, 1) * Extent(a, b, 2) * Extent(a, b, 3)
BoxIoU(a, b) == LET i == BoxInter(a, b) IN <<i, VolB(a) + VolB(b) - i>>

(* -- objects of a track -- *)
DPts(p, d) == [i \in DOMAIN p.dpts[d] |-> PosePoint(p.dq[d], p.dposu[d], p.dpts[d][i])]
GPts(p, g) == [i \in DOMAIN p.gpts[g] |-> PosePoint(p.gq[g], p.gposu[g], p.gpts[g][i])]
DBox(p, d) == BoxOf(p.dq[d], p.dposu[d], p.dmin[d], p.dsize[d])
GBox(p, g) == BoxOf(p.gq[g], p.gposu[g], p.gmin[g], p.gsize[g])
Similarity(p, d, g) ==
    IF p.kind = "bounding_box" THEN BoxIoU(DBox(p, d), GBox(p, g))
    ELSE PointsIoU(DPts(p, d), GPts(p, g), p.t2)

(* the evaluation problem of Eval that the track poses: similarities and thresholds in units of
   10^-5, positions in thousandths *)
E5(f) == (f[1] * 100000) \div f[2]
Problem(p) ==
    [p EXCEPT !.sim = [d \in 1..Len(p.sc) |-> [g \in 1..Len(p.gcat) |-> E5(Similarity(p, d, g))]],
              !.dpos = [d \in DOMAIN p.dposu |-> [i \in 1..3 |-> p.dposu[d][i] * p.u]],
              !.gpos = [g \in DOMAIN p.gposu |-> [i \in 1..3 |-> p.gposu[g][i] * p.u]]]
(* a similarity that equals a threshold: decided by rounding unless the track is exact *)
Tied(q) == \E d \in Dets(q), g \in Gts(q), k \in DOMAIN q.ths : q.sim[d][g] = q.ths[k]

(* -- RMS errors over correspondences, in thousandths of a unit -- *)
RmsMilli(sum, n) == IF sum < 2147 THEN ISqrt((sum * 1000000) \div n) ELSE 5 * ISqrt((sum * 40000) \div n)
NearSum(S, T) == SumSeq([i \in DOMAIN S |-> Nearest2(S[i], T)])
PairRms(p, d, g) == LET S == DPts(p, d)  T == GPts(p, g)
                    IN RmsMilli(NearSum(S, T) + NearSum(T, S), Len(S) + Len(T))
(* colour: the nearest neighbour may be any of several equally near points *)
Nearests(x, T) == {j \in DOMAIN T : Dist2(x, T[j]) = Nearest2(x, T)}
ColSums(S, T, cs, ct) == [i \in DOMAIN S |-> {Dist2(cs[i], ct[j]) : j \in Nearests(S[i], T)}]
LowSum(sets) == SumSeq([i \in DOMAIN sets |-> MinSet(sets[i])])
HighSum(sets) == SumSeq([i \in DOMAIN sets |-> MaxSet(sets[i])])
PairColour(p, d, g, Bound(_)) ==
    LET S == DPts(p, d)  T == GPts(p, g)
    IN RmsMilli(Bound(ColSums(S, T, p.dcol[d], p.gcol[g])) + Bound(ColSums(T, S, p.gcol[g], p.dcol[d])),
                Len(S) + Len(T))
Corrs(p, ms) == {<<k, d>> \in (DOMAIN p.ths) \X Dets(p) : ms[k][d] # 0}
MeanCorr(F(_, _), p, ms) ==
    SumSetF(LAMBDA c : F(c[2], ms[c[1]][c[2]]), Corrs(p, ms)) \div Cardinality(Corrs(p, ms))
=============================================================================
